//! Dispatchers whose keys first separate at a chosen length (paths found by tools/search).
//! name, length the search says is needed, endpoint / incoming / outgoing topic paths

crate::disp! {
    req_req1 2 [E0 "rr/3" E1 "rr/5"] [] [];
    req_tin1 2 [E0 "rt/9"] [T0 "rt/11"] [];
    tin_tin1 2 [] [T0 "tt/0" T1 "tt/9"] [];
    resp_resp1 2 [E0 "oo/b" E1 "oo/16"] [] [];
    resp_tout1 2 [E0 "ot/0"] [] [O0 "ot/13"];
    tout_tout1 2 [] [] [O0 "uu/4" O1 "uu/9"];
    req_ping1 2 [E0 "req_ping/1158"] [] [];
    req_schemas1 2 [E0 "req_schemas/10c3"] [] [];
    tin_ping1 2 [] [T0 "tin_ping/32cc"] [];
    resp_ping1 2 [E0 "resp_ping/180"] [] [];
    resp_schemas1 2 [E0 "resp_schemas/12fd"] [] [];
    resp_log1 2 [E0 "resp_log/1114"] [] [];
    tout_log1 2 [] [] [O0 "tout_log/10cf"];
    tout_data1 2 [] [] [O0 "tout_data/1f6"];
    resp_error1 2 [E0 "resp_error/11c8"] [] [];
    tout_error1 2 [] [] [O0 "tout_error/109f"];
    req_req2 4 [E0 "rr/63" E1 "rr/a0"] [] [];
    req_tin2 4 [E0 "rt/4a"] [T0 "rt/4d"] [];
    tin_tin2 4 [] [T0 "tt/22" T1 "tt/88"] [];
    resp_resp2 4 [E0 "oo/9" E1 "oo/10a"] [] [];
    resp_tout2 4 [E0 "ot/183"] [] [O0 "ot/2af"];
    tout_tout2 4 [] [] [O0 "uu/28" O1 "uu/45"];
    req_ping2 4 [E0 "req_ping/2975"] [] [];
    req_schemas2 4 [E0 "req_schemas/8a65"] [] [];
    tin_ping2 4 [] [T0 "tin_ping/56e6"] [];
    resp_ping2 4 [E0 "resp_ping/50"] [] [];
    resp_schemas2 4 [E0 "resp_schemas/fc2f"] [] [];
    resp_log2 4 [E0 "resp_log/3e08"] [] [];
    tout_log2 4 [] [] [O0 "tout_log/189f0"];
    tout_data2 4 [] [] [O0 "tout_data/a10f"];
    resp_error2 4 [E0 "resp_error/123a"] [] [];
    tout_error2 4 [] [] [O0 "tout_error/34ea3"];
    req_req4 8 [E0 "rr/a47d" E1 "rr/13093"] [] [];
    req_tin4 8 [E0 "rt/23fc"] [T0 "rt/1320d"] [];
    tin_tin4 8 [] [T0 "tt/105fb" T1 "tt/11fa7"] [];
    resp_resp4 8 [E0 "oo/149b5" E1 "oo/1a106"] [] [];
    resp_tout4 8 [E0 "ot/a042"] [] [O0 "ot/b240"];
    tout_tout4 8 [] [] [O0 "uu/2cb3f" O1 "uu/2f04a"];
    req_ping4 8 [E0 "req_ping/18d1c919"] [] [];
    resp_error4 8 [E0 "resp_error/33513ee1"] [] [];
    cross_req_resp1 1 [E0 "x1/14" E1 "x1/17"] [] [];
    cross_tin_tout1 1 [] [T0 "x2/1"] [O0 "x2/10"];
    cross_req_tout1 1 [E0 "x3/4"] [] [O0 "x3/e"];
    cross_resp_tin1 1 [E0 "x4/13"] [T0 "x4/15"] [];
    cross_req_resp2 1 [E0 "x1/81" E1 "x1/476"] [] [];
    cross_tin_tout2 1 [] [T0 "x2/2"] [O0 "x2/c0"];
    cross_req_tout2 1 [E0 "x3/55"] [] [O0 "x3/207"];
    cross_resp_tin2 1 [E0 "x4/28e"] [T0 "x4/2ac"] [];
}
