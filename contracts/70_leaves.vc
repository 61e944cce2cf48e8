func bptree.leafList.InsertLeafAfter(ll, f, s, a)
 props C02 C03 C08
 requires @C08 live: h.al.contains(s) && h.al.contains(a) && h.al.contains(nxq(bp(h.mem, a))) && s != a && s != nxq(bp(h.mem, a))
 requires bp(h.mem, s).len() == 8192 && bp(h.mem, a).len() == 8192 && bp(h.mem, nxq(bp(h.mem, a))).len() == 8192 && z_i64ok(s) && z_i64ok(a)
 modifies mem ll
 ensures links: linkIns(h0.mem, h.mem, a, s) && mem_kept3(h0, h, -1 - s, -1 - a, -1 - nxq(bp(h0.mem, a)))
 ensures ends: ll == (if a == ll0.tailAddr { T_leafList { tailAddr: s, headAddr: ll0.headAddr } } else { ll0 })

func bptree.leafList.RemoveLeaf(ll, f, a)
 props C02 C03 C08
 requires @C08 live: h.al.contains(a) && h.al.contains(nxq(bp(h.mem, a))) && h.al.contains(pvq(bp(h.mem, a))) && a != nxq(bp(h.mem, a)) && a != pvq(bp(h.mem, a))
 requires bp(h.mem, a).len() == 8192 && bp(h.mem, pvq(bp(h.mem, a))).len() == 8192 && bp(h.mem, nxq(bp(h.mem, a))).len() == 8192
 modifies mem ll
 ensures links: linkRem(h0.mem, h.mem, a) && mem_kept3(h0, h, -1 - pvq(bp(h0.mem, a)), -1 - nxq(bp(h0.mem, a)), -1 - nxq(bp(h0.mem, a)))
 ensures ends: ll == (if a == ll0.headAddr { T_leafList { headAddr: nxq(bp(h0.mem, a)), tailAddr: ll0.tailAddr } } else if a == ll0.tailAddr { T_leafList { tailAddr: pvq(bp(h0.mem, a)), headAddr: ll0.headAddr } } else { ll0 })
