#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json
MC='exhaustive stateless model checking of the real code under a controlled scheduler (delay-bounded), '
EN='bounded-exhaustive state/input enumeration on the real code against an independent reference model, '
C={
'C01':(MC+'adversarial server enumerated','model_checking','all schedules to the stated delay bound x every server choice of the scenarios; callers, workers and server are the real futures'),
'C02':(MC+'adversarial server enumerated','model_checking','all schedules to the stated delay bound; hang = quiescent state with a pending answered call'),
'C03':(MC+'stalling wire','model_checking','all schedules to the stated delay bound, queue depths 1..3'),
'C04':(MC+'plus a sweep over every counter value past both wraps','model_checking','schedules at the granularity of the counter accesses (vp_hooks)'),
'C05':(MC+'all reply key-length sequences','model_checking','all schedules to the delay bound x all reply key lengths'),
'C06':(MC+'close/fault/drop injected at every scheduling point','model_checking','each fault kind at every scheduling point of the workload'),
'C07':(MC+'reference subscriber model on every schedule','model_checking','arrival streams, depths and timeouts as stated in the evidence'),
'C08':('all operation sequences to a depth against a reference model, plus '+MC+'interleaved subscribers','model_checking','all sequences of the operation alphabet to the depth stated in the evidence'),
'C09':(EN+'every frame shape over the stated alphabets','model_checking','all headers, key/seq lengths, truncations and single-byte corruptions in the stated alphabet, against an independent codec'),
'C10':(EN+'all pairs of keys over a byte-lane alphabet','model_checking','all keys with lanes from the stated alphabet x all length conversions'),
'C11':(EN+'all key lists over an alphabet, plus real dispatchers with keys colliding at every length','model_checking','all list shapes to the stated size; 48 dispatcher definitions x handlers or none; refused definitions compiled'),
'C20':(MC+'every combination of lost, failed, cut and late frames','model_checking','real server to real client, fates of all frames to the deviation bound, schedules to the delay bound'),
'C21':(EN+'all type trees of the data model to a depth','model_checking','every constructor over every type tree to depth 3-4, all merges of their lists, 12 real interface declarations'),
'C12':(EN+'all histories of frames and faults through real dispatchers','model_checking','every received frame kind x dispatcher key length, fault scripts and histories to the stated depth'),
'C13':(EN+'every outcome of every wire operation of the run loop','model_checking','all sequences of receive and send outcomes to the stated depth'),
'C14':(MC+'every fate of every packet, senders abandoned at any point','model_checking','the real embassy-usb 0.3 and 0.4 transports over a model of the USB driver interface; host view reassembled from packets'),
'C15':(EN+'every transfer length x buffer size, sequences of transfers and disconnections','model_checking','the real embassy-usb 0.3 and 0.4 transports over a model of the USB driver interface'),
'C16':(EN+'every buffer size x text length x key length x character width x fragmentation','model_checking','the real embassy-usb 0.3 and 0.4 transports; frames decoded independently'),
'C17':(EN+'all byte strings over an alphabet, every chunking, every buffer size','model_checking','streams to the stated length and all chunkings; independent COBS codec as oracle'),
'C18':(EN+'every chunking of byte streams and every short write, plus schedules with port failures','model_checking','the real serial client over a scripted port; independent COBS codec as oracle'),
'C19':(EN+'every sequence of transfer completions, plus schedules','model_checking','the real raw USB client over a device model of nusb; reference automaton over the completions'),
'C22':(MC+'stop and disconnects at every scheduling point','model_checking','all schedules to the delay bound over the real channel server'),
'C23':(EN+'every sequence of promise outcomes, plus schedules','model_checking','the real WebUSB client over a model of the browser (promises, executor, USB device); compiled for the host with vp_hooks'),
'C26':(MC+'real client and real server joined by the channel transport, either side ending at any point','model_checking','schedules to the delay bound of callers, publishers, subscribers and the run loop; every frame length around the receive buffer'),
'C25':(EN+'every dispatcher definition of a bounded space, built against the crate','model_checking','about 1500 definitions (handlers x lists in every order, coinciding keys at every position, disabled entries), each built; oracle on paths and types'),
'C24':(MC+'all operation sequences x key lengths x sequence widths, firmware (no std) build against host build','model_checking','real client and real dispatchers of both builds over a reliable wire; all pairs of operations, schedules to the delay bound'),
}
import os
extra=os.path.join(os.path.dirname(os.path.abspath(__file__)),'manifest_extra.json')
if os.path.exists(extra): C.update({k:tuple(v) for k,v in json.load(open(extra)).items()})
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA={}
m=dict(version=1,setup_cmd='bash /verif/setup.sh',
 hooks=dict(guard='--cfg vp_hooks',enable='RUSTFLAGS="--cfg vp_hooks" (set by /verif/build.sh); vendored tokio/maitake-sync are patched through the harness crates\' [patch.crates-io]',source_commits=['875483f','0f587b6','967c41b']),
 checks=[dict(property=i,quick_cmd=f'bash /verif/check.sh {i} quick',thorough_cmd=f'bash /verif/check.sh {i} thorough',technique=C[i][0].rstrip(', '),level=C[i][1],level_note=C[i][2]) for i in ids if i in C],
 not_applicable=[dict(property=i,reason=NA.get(i,'check not built yet')) for i in ids if i not in C])
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
print(len(m['checks']),'checks',[x['property'] for x in m['not_applicable']])
