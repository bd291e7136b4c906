# What each property's check explores. A task is (check, shape, cap in seconds, mandatory).
# Shape: i<inputs> o<outputs> a<assumptions> g<guarantees>:E S e s A G with, per component (init env/sys, safety env/sys, liveness
# assumptions/guarantees), 0 = TRUE, 1 = symbolic over the pre-state, 2 = fully symbolic, 3 = symbolic over the post-state,
# >= 10: a pseudo-random fixed relation (seed) with 5 (or 2*hundreds) symbolic entries.
ASSUME_ENGINE = [
 "libcudd is replaced by a model of its documented interface (a node is a Boolean function with symbolic truth-table entries); sampled path models are replayed through the unmodified program with the real CUDD",
 "the symbolic GR(1) specification enters right after the program's own input parsing (the parser is decided separately, C25/C26)",
 "BF_newDumpDot (debug drawing into /tmp) has an empty body",
 "bounds: numbers of inputs, outputs, liveness properties and the symbolic parts are those named in bounds_exhausted; larger specifications are outside the claim"]
def T(check, *shapes, cap=400, mandatory=False): return [(check, s, cap, mandatory) for s in shapes]
def M(check, *shapes, cap=600): return T(check, *shapes, cap=cap, mandatory=True)
def seeds(check, pat, rng, cap=10): return [(check, pat.replace("#", str(k)), cap, False) for k in rng]
WITNESS = {"interleave": [0, 1, 2], "traces": [0, 2, 3, 4, 5], "run": [0, 1, 3], "interaction": [0, 1, 2, 3, 4, 5], "assume": [0, 1, 2, 3, 4, 5]}
BIG = "i2o2a2g2:E0S0e#s#A#G#"; MID = "i1o2a2g3:E0S0e#s#A#G#"; MID2 = "i2o1a2g2:E0S0e#s#A#G#"
V_TINY = ["i1o0a1g1:E2S2e2s2A2G2", "i0o1a1g1:E2S2e2s2A2G2", "i1o0a2g2:E2S2e2s2A1G1", "i0o1a2g2:E2S2e2s2A1G1", "i1o0a3g3:E2S2e2s2A1G1", "i0o1a3g3:E0S0e0s2A1G1", "i1o1a3g1:E0S0e0s0A1G1", "i1o0a4g4:E0S0e0s2A1G1"]
V_MID = ["i1o1a1g2:E0S0e0s1A1G1", "i1o1a2g2:E0S0e0s0A1G1", "i1o1a2g1:E0S0e2s1A1G1", "i1o1a2g1:E0S0e1s0A2G1", "i1o1a1g3:E0S0e0s0A1G1", "i1o2a1g1:E0S0e0s1A1G1", "i2o1a1g1:E0S0e1s1A1G0"]
V1 = "i1o1a1g1:E2S2e2s2A1G1"
def verdicts(c, n): return M(c, V1) + T(c, *V_TINY) + T(c, *V_MID) + seeds(c, MID, range(10, 10 + n)) + seeds(c, BIG, range(10, 10 + n)) + seeds(c, MID2, range(10, 10 + n))
def deepV(c): return M(c, V1, "i1o1a1g1:E2S2e2s2A2G2", cap=4000) + T(c, *V_TINY) + T(c, *V_MID, "i1o1a2g1:E2S2e2s2A1G1", "i1o1a1g2:E2S2e2s2A1G1", "i1o2a1g1:E2S2e2s1A1G1", cap=2500) + seeds(c, MID, range(400, 440)) + seeds(c, BIG, range(400, 440))
S1 = "i1o1a1g1:E0S0e2s2A0G1"; S2 = "i1o1a1g2:E0S0e0s2A0G1"; S3 = "i1o1a1g1:E0S0e0s2A1G1"; S4 = "i1o1a2g2:E0S0e0s1A1G1"; S6 = "i1o1a1g1:E0S0e1s2A0G1"; S7 = "i1o1a1g2:E0S0e1s1A0G1"
SI = "i1o1a1g1:E2S2e0s1A0G1"; S5 = "i1o1a1g1:E2S2e1s1A0G0"; PS = "i1o1a0g2:E0S0e1s0A0G1"; SG3 = "i1o1a1g3:E0S0e0s1A0G1"
SML = "i1o1a2g2:E0S0e#s#A#G#"
BASIC = [SI, S5, S7, PS]
def strat(c, n, *extra, cap=30): return T(c, *(BASIC + list(extra)), cap=cap) + seeds(c, SML, range(11, 11 + n), 5) + seeds(c, MID, range(11, 11 + n), 5) + seeds(c, MID2, range(10, 10 + n), 5)
def deepS(c, n=25): return M(c, S2, cap=3000) + T(c, S1, S3, S4, S6, SG3, *BASIC, cap=1500) + seeds(c, SML, range(400, 400 + n), 60) + seeds(c, MID, range(400, 400 + n), 60) + seeds(c, BIG, range(10, 10 + n), 60)
ST = ["i1o1a1g1:E0S0e2s2A1G1", "i1o1a1g2:E0S0e0s1A1G1", SG3, SI]
PROPS = {
 "C01": {"quick": verdicts("verdict", 6) + T("verdict", "i1o1a1g1:E2S2e2s2A2G2"), "thorough": deepV("verdict")},
 "C02": {"quick": verdicts("verdictRobotics", 6), "thorough": deepV("verdictRobotics")},
 "C03": {"quick": sum([M(c, V1) + T(c, *V_TINY) + T(c, *V_MID[:6]) + seeds(c, MID, range(10, 13)) + seeds(c, BIG, range(10, 12)) for c in ("verdictRecycling", "verdictBias", "verdictRecyclingRobotics", "verdictBiasRobotics")], []),
         "thorough": sum([deepV(c) for c in ("verdictRecycling", "verdictBias", "verdictRecyclingRobotics", "verdictBiasRobotics")], [])},
 "C04": {"quick": M("strat", S2) + strat("strat", 5, S3, S4, S6, SG3) + strat("stratRob", 1, S2) + strat("stratBias", 2, S2, S4) + strat("stratRecycling", 2, S2, S4) + T("stratFile", S7) + strat("stratBiasRob", 1) + strat("stratRecyclingRob", 1), "thorough": sum([deepS(c) for c in ("strat", "stratRob", "stratBias", "stratRecycling", "stratBiasRob", "stratRecyclingRob")], [])},
 "C05": {"quick": M("stratJson", S2) + strat("stratJson", 2, S6) + T("stratFileJson", S7) + strat("stratRobJson", 1) + strat("stratBiasJson", 1) + strat("stratRecyclingJson", 1) + T("stratRecJson", *BASIC) + T("stratCoopJson", *BASIC), "thorough": sum([deepS(c, 10) for c in ("stratJson", "stratRobJson", "stratRecJson", "stratCoopJson", "stratBiasJson", "stratRecyclingJson")], [])},
 "C06": {"quick": M("stratRec", S2) + strat("stratRec", 3, S3, S4, S6, cap=25) + strat("stratRobRec", 1, S2) + strat("stratBiasRec", 1) + strat("stratRecyclingRec", 1), "thorough": sum([deepS(c, 15) for c in ("stratRec", "stratRobRec", "stratBiasRec", "stratRecyclingRec")], [])},
 "C07": {"quick": verdicts("counterVerdict", 3) + verdicts("counterVerdictRobotics", 3) + T("counterVerdictFull", "i1o1a1g1:E2S2e0s0A1G1"), "thorough": deepV("counterVerdict") + deepV("counterVerdictRobotics")},
 "C08": {"quick": M("counterMachine", "i1o1a1g1:E0S0e2s2A0G1", "i1o1a1g2:E0S0e0s1A1G1") + T("counterMachine", "i1o1a1g3:E0S0e0s0A1G1", "i1o1a2g2:E0S0e0s0A1G1", "i1o1a1g1:E2S2e0s1A0G1", "i1o1a2g1:E0S0e1s1A1G1", cap=25) + seeds("counterMachine", SML, range(10, 20), 6) + seeds("counterMachine", MID, range(10, 18), 6) + seeds("counterMachine", MID2, range(10, 18), 6) + T("counterMachineFile", "i1o1a1g2:E0S0e0s0A1G1"), "thorough": M("counterMachine", "i1o1a1g1:E0S0e2s2A1G1", "i1o1a1g2:E0S0e0s2A1G1", "i1o1a2g2:E0S0e1s1A1G1", "i1o1a1g3:E0S0e0s1A1G1", cap=3000) + seeds("counterMachine", MID, range(400, 450), 60) + seeds("counterMachine", BIG, range(10, 30), 120)},
 "C09": {"quick": sum([M(c, ST[0]) + T(c, *ST[1:]) + seeds(c, MID, range(10, 13), 5) for c in ("symb", "simpleSymb")], []) + sum([T(c, "i1o1a1g1:E0S0e1s2A1G1", ST[1], SI, cap=20) for c in ("symbRec", "simpleSymbRec", "symbRob", "simpleSymbRob", "symbBias", "simpleSymbBias", "symbRecycling", "simpleSymbRecycling", "symbCoop", "simpleSymbCoop")], []),
         "thorough": sum([M(c, ST[0], "i1o1a1g2:E0S0e0s2A1G1", cap=3000) + T(c, SI, "i1o1a1g3:E0S0e0s1A1G1", "i1o1a2g2:E0S0e1s1A1G1", cap=2000) + seeds(c, MID, range(400, 420), 60) for c in ("symb", "simpleSymb", "symbRec", "simpleSymbRec", "symbRob", "simpleSymbRob", "symbBias", "simpleSymbBias", "symbRecycling", "simpleSymbRecycling", "symbCoop", "simpleSymbCoop")], [])},
 "C10": {"quick": M("perm", S6) + strat("perm", 3, S4, cap=15) + strat("permRob", 1) + strat("permBias", 1) + strat("permRecycling", 1) + T("permFile", S7), "thorough": sum([deepS(c, 15) for c in ("perm", "permRob", "permBias", "permRecycling")], [])},
 "C11": {"quick": M("stratCoop", S6) + strat("stratCoop", 4, S2, S4, cap=20) + strat("stratCoopRob", 1, S2), "thorough": sum([deepS(c) for c in ("stratCoop", "stratCoopRob")], [])},
 "C12": {"quick": M("weaken", "i1o1a1g1:E0S0e2s2A0G0") + T("weaken", "i2o1a1g1:E0S0e1s1A0G0", "i1o1a1g1:E0S0e2s0A0G2", "i1o1a1g1:E0S0e2s1A1G0", "i2o1a1g1:E0S0e3s1A0G0", "i1o1a1g1:E2S2e2s0A0G1", "i1o1a1g2:E0S0e2s0A0G1", "i1o1a2g1:E0S0e2s0A1G1", "i1o2a1g1:E0S0e2s0A0G1", "i2o1a1g1:E0S0e3s0A0G1", cap=60), "thorough": M("weaken", "i1o1a1g1:E0S0e2s2A0G0", "i1o1a1g1:E0S0e2s0A0G2") + T("weaken", "i1o1a1g1:E2S2e2s1A1G1", "i2o1a1g1:E0S0e1s2A0G0", "i1o2a1g1:E0S0e2s1A0G1", "i2o2a1g1:E0S0e1s1A0G0", "i1o1a2g2:E0S0e2s1A1G1", "i2o1a1g1:E0S0e3s1A0G1", cap=2500)},
 "C13": {"quick": M("cnf", "i1o1a1g1:E2S2e0s0A0G0", "i1o1a1g1:E0S0e2s0A0G0", "i1o1a1g1:E0S0e0s2A0G0", "i1o1a1g1:E0S0e0s0A2G0", "i1o1a1g1:E0S0e0s0A0G2") + T("cnf", "i1o1a2g2:E0S0e0s0A3G1", "i2o1a1g1:E0S0e1s0A0G1", "i2o1a1g1:E0S2e0s0A0G0", "i1o2a1g1:E2S0e0s1A0G0", cap=30) + seeds("cnf", "i2o2a1g1:E0S0e#s#A#G0", range(12, 14), 8), "thorough": M("cnf", "i1o1a1g1:E2S2e0s0A0G0", "i1o1a1g1:E0S0e2s0A0G0", "i1o1a1g1:E0S0e0s2A0G0", "i1o1a1g1:E0S0e0s0A2G0", "i1o1a1g1:E0S0e0s0A0G2") + T("cnf", "i2o2a1g1:E2S2e0s0A0G0", "i2o1a1g1:E0S0e3s0A1G1", "i1o2a2g2:E0S0e1s1A0G0", "i2o2a2g2:E0S0e1s0A0G0", cap=1500) + seeds("cnf", BIG, range(11, 60), 60)},
 "C14": {"quick": sum([M(c, "i1o1a1g1:E2S2e0s1A0G1", "i1o1a1g1:E2S2e1s0A0G1") + T(c, "i1o1a1g1:E0S2e2s1A0G0", "i1o1a1g1:E2S0e0s2A0G0", "i1o0a1g1:E2S2e2s2A0G1", "i0o2a1g1:E2S2e0s1A0G1", "i1o1a1g1:E2S2e1s1A1G1", "i2o1a1g1:E2S1e1s0A0G0", "i1o2a1g1:E2S0e0s1A0G0", cap=25) + seeds(c, "i2o2a1g2:E2S0e#s#A#G#", range(10, 13), 8) for c in ("initPos", "initPosReach")], []), "thorough": sum([M(c, "i1o1a1g1:E2S2e0s1A0G1", "i1o1a1g1:E2S2e1s0A0G1") + T(c, "i1o1a1g1:E2S2e2s1A0G0", "i1o1a1g1:E2S2e0s2A0G1", "i1o0a1g1:E2S2e2s2A2G2", "i2o1a1g1:E2S2e1s1A0G0", "i1o2a1g1:E2S2e0s1A0G1", cap=2500) + seeds(c, "i2o2a1g2:E2S0e#s#A#G#", range(10, 40), 60) for c in ("initPos", "initPosReach")], [])},
 "C15": {"quick": M("assume", "i1o1a1g2p2:E2S2e1s0A0G1", "i1o1a1g1p3:E2S0e1s1A0G0", "i1o1a2g1:E0S0e0s1A1G1") + T("assume", "i1o1a1g1:E2S2e1s0A0G1", "i1o1a0g1p2:E0S0e1s0A1G1", "i1o1a2g1p2:E0S0e1s0A1G1", "i1o1a1g1p2:E0S0e2s0A0G1", "i1o1a1g1p2:E2S2e1s1A1G0", "i1o1a2g2p2:E0S0e1s0A1G1", "i1o1a0g0p2:E2S2e1s1A0G0", cap=25) + seeds("assume", "i1o1a2g1p2:E0S0e#s#A#G#", range(11, 17), 5) + seeds("assume", "i1o2a2g2p2:E0S0e#s#A#G#", range(10, 16), 6) + seeds("assume", "i2o1a2g2p2:E2S0e#s#A#G#", range(10, 14), 6),
         "thorough": M("assume", "i1o1a1g2p2:E2S2e1s0A0G1", "i1o1a1g1p3:E2S0e1s1A0G0", "i1o1a2g1:E0S0e0s1A1G1") + T("assume", "i1o1a1g1p2:E2S2e2s1A1G1", "i1o1a2g1p2:E0S0e1s1A1G1", "i1o1a3g1p2:E0S0e1s0A1G1", "i1o1a1g1p2:E0S0e2s1A1G1", "i2o1a1g1p2:E2S2e1s0A0G1", cap=2500) + seeds("assume", "i1o2a2g2p2:E0S0e#s#A#G#", range(400, 440), 60) + seeds("assume", "i2o2a2g2p2:E2S0e#s#A#G#", range(10, 40), 60)},
 "C16": {"quick": M("interaction", "i1o1a1g1:E2S2e1s1A0G0", "i1o1a1g1:E0S0e1s3A0G1", "i1o0a1g1:E2S2e2s2A0G1", "i0o1a1g1:E2S2e2s2A0G1") + T("interaction", "i1o1a1g1:E0S0e2s1A0G1", "i1o1a1g1:E0S0e0s2A0G0", "i1o1a1g1:E2S2e0s1A0G1", "i1o0a1g1:E2S2e2s2A2G2", "i0o1a1g1:E2S2e2s2A2G2", "i1o1a1g1:E0S0e1s1A1G1", "i1o1a2g2:E0S0e0s1A1G0", cap=20) + seeds("interaction", "i1o1a2g2:E2S0e#s#A#G#", range(11, 14), 6) + seeds("interaction", "i1o2a1g2:E0S0e#s#A#G#", range(10, 14), 6) + seeds("interaction", "i2o1a1g2:E0S0e#s#A#G#", range(10, 14), 6),
         "thorough": M("interaction", "i1o1a1g1:E2S2e1s1A0G0", "i1o1a1g1:E0S0e1s3A0G1", "i1o0a1g1:E2S2e2s2A2G2", "i0o1a1g1:E2S2e2s2A2G2", cap=3000) + T("interaction", "i1o1a1g1:E0S0e2s2A0G1", "i1o1a1g1:E2S2e2s1A1G1", "i1o1a2g2:E0S0e1s1A1G1", "i2o1a1g1:E2S0e1s1A0G0", "i1o2a1g1:E0S0e0s1A0G1", cap=2500) + seeds("interaction", "i1o2a2g2:E2S0e#s#A#G#", range(400, 430), 60) + seeds("interaction", "i2o1a2g2:E2S0e#s#A#G#", range(400, 430), 60)},
 "C17": {"quick": M("traces", "i1o1a1g1:E2S2e1s1A0G0", "i1o1a1g1:E0S0e2s1A0G0") + T("traces", "i1o1a1g1:E2S2e2s1A0G0", "i1o1a1g1:E2S2e1s3A0G0", "i1o1a1g1:E2S0e0s2A0G0", "i1o1a1g1:E0S1e1s2A0G0", "i1o0a1g1:E2S2e2s2A0G0", "i0o1a1g1:E2S2e2s2A0G0", "i0o2a1g1:E2S2e1s1A0G0", "i2o1a1g1:E2S0e1s0A0G0", "i1o2a1g1:E0S0e1s1A0G0", cap=20) + seeds("traces", "i1o2a1g1:E2S0e#s#A0G0", range(10, 16), 5) + seeds("traces", "i2o1a1g1:E2S0e#s#A0G0", range(10, 16), 5) + seeds("traces", "i2o2a1g1:E0S0e#s#A0G0", range(10, 14), 5),
         "thorough": M("traces", "i1o1a1g1:E2S2e2s1A0G0", "i1o1a1g1:E2S2e1s3A0G0", cap=3000) + T("traces", "i1o1a1g1:E0S0e2s2A0G0", "i2o1a1g1:E2S2e1s1A0G0", "i1o2a1g1:E2S2e1s1A0G0", "i2o2a1g1:E0S0e1s1A0G0", cap=2500) + seeds("traces", "i1o2a1g1:E2S0e#s#A0G0", range(400, 440), 60) + seeds("traces", "i2o2a1g1:E2S0e#s#A0G0", range(400, 440), 60)},
 "C18": {"quick": M("run", "i1o1a1g1:E2S2e1s1A0G0", "i1o1a1g1:E0S0e2s1A0G0") + T("run", "i1o1a1g1:E0S0e2s2A0G0", "i1o1a1g1:E0S0e0s1A2G0", "i1o1a1g1:E0S0e0s0A0G2", "i1o1a1g1:E0S0e1s1A1G1", "i1o1a2g2:E0S0e0s0A1G1", "i1o1a1g1:E0S0e2s0A1G0", "i1o0a1g1:E2S2e2s2A1G1", "i0o1a1g1:E2S2e2s2A1G1", cap=20) + seeds("run", "i1o1a2g2:E0S0e#s#A#G#", range(11, 19), 5) + seeds("run", "i1o2a2g2:E0S0e#s#A#G#", range(10, 16), 5) + seeds("run", "i2o1a2g2:E0S0e#s#A#G#", range(10, 16), 5),
         "thorough": M("run", "i1o1a1g1:E2S2e1s1A0G0", "i1o1a1g1:E0S0e2s2A0G0", cap=3000) + T("run", "i1o1a1g1:E2S2e2s1A1G1", "i1o1a2g2:E0S0e1s1A1G1", "i1o1a1g1:E0S0e1s1A2G1", "i1o1a1g1:E0S0e1s1A1G2", "i2o1a1g1:E0S0e1s1A1G0", cap=2500) + seeds("run", "i1o2a2g3:E0S0e#s#A#G#", range(400, 440), 60) + seeds("run", "i2o2a2g2:E0S0e#s#A#G#", range(400, 440), 60)},
 "C20": {"quick": M("interleave", "i1o1a1g1:E0S0e2s2A0G0", "i1o1a1g1:E2S2e0s1A0G1", "i1o2a1g1:E0S0e0s1A0G1") + T("interleave", "i1o1a1g1:E0S2e1s2A0G0", "i1o1a1g2:E0S0e0s2A0G1", "i1o1a1g1:E0S0e1s1A1G1", "i1o1a2g2:E0S0e0s1A1G1", "i2o1a1g1:E0S0e1s1A0G0", "i1o0a1g1:E2S2e2s2A1G1", "i0o1a1g1:E2S2e2s2A1G1", "i1o2a1g1:E0S2e0s1A0G0", "i1o2a1g1:E0S0e1s1A0G0", "i0o2a1g1:E0S2e0s1A0G1", "i1o1a1g1:E0S0e1s2A1G1", cap=30) + seeds("interleave", "i1o2a2g2:E0S0e#s#A#G#", range(10, 22), 8) + seeds("interleave", "i1o3a1g1:E0S0e#s#A#G#", range(10, 14), 8) + seeds("interleave", "i2o2a1g1:E0S0e#s#A#G#", range(10, 16), 8) + seeds("interleave", "i1o1a2g2:E2S2e#s#A#G#", range(10, 20), 8),
         "thorough": M("interleave", "i1o1a1g1:E2S2e2s2A0G1", "i1o2a1g1:E0S0e0s1A0G1", cap=3000) + T("interleave", "i1o1a1g1:E2S2e2s2A2G2", "i1o2a1g1:E2S0e1s2A0G0", "i1o1a2g2:E0S0e1s1A1G1", "i1o3a1g1:E0S0e0s1A0G0", "i2o2a1g1:E0S0e0s1A0G0", cap=2500) + seeds("interleave", "i1o2a2g2:E0S0e#s#A#G#", range(400, 440), 60) + seeds("interleave", "i2o2a2g2:E0S0e#s#A#G#", range(400, 440), 60)},
 "C22": {"quick": sum([M(c, "i1o1a1g1:E0S0e1s1A1G1") + T(c, "i1o1a1g1:E2S2e0s1A0G1", "i1o1a1g2:E0S0e0s1A0G1", cap=15) for c in ("costA", "costB", "costC", "costD", "costBRec", "costDRec")], []) + T("costB", "i1o1a1g2:E0S0e1s1A0G1", "i1o1a2g1:E0S0e0s0A1G1", cap=12) + sum([T(c, "i1o1a1g1:E0S0e1s1A1G1", "i1o1a1g1:E2S2e1s1A0G0", cap=10) for c in ("costARob", "costBRob", "costCRobRec", "costDJson", "costBRecJson", "costAVerdict", "costBVerdict", "costCVerdictRob", "costDVerdictRob")], []) + seeds("costB", SML, range(10, 12), 4) + seeds("costC", MID2, range(10, 12), 4),
         "thorough": sum([M(c, "i1o1a1g1:E0S0e1s1A1G1") + T(c, "i1o1a1g1:E0S0e2s1A1G1", "i1o1a1g2:E0S0e2s0A1G1", "i1o1a2g2:E0S0e0s0A1G1", "i1o1a1g3:E0S0e0s0A1G1", cap=1000) + seeds(c, SML, range(400, 410), 60) + seeds(c, MID, range(400, 410), 60) for c in ("costA", "costB", "costC", "costD", "costBRec", "costDRec", "costARob", "costBRob", "costCRobRec")], []) + sum([T(c, "i1o1a1g1:E0S0e1s1A1G1", "i1o1a2g1:E0S0e1s1A1G0", cap=600) for c in ("costAVerdict", "costBVerdict", "costCVerdictRob", "costDVerdictRob")], [])},
 "C23": {"quick": sum([M(c, "i1o2a1g1:E0S0e0s1A0G1", "i1o1a1g1:E0S0e2s2A0G0") + T(c, "i1o1a1g1:E2S2e1s1A0G0", "i1o2a1g1:E2S0e0s1A0G0", "i1o1a1g1:E0S0e1s1A1G1", "i1o2a1g1:E0S2e0s1A0G0", cap=15) + seeds(c, "i1o2a1g2:E0S0e#s#A#G#", range(10, 12), 4) for c in ("fs_verdict", "fs_verdictRobotics", "fs_strat")], []) + sum([T(c, "i1o2a1g1:E0S0e0s1A0G1", "i1o1a1g1:E0S0e1s2A0G0", cap=15) + seeds(c, "i1o2a1g2:E0S0e#s#A#G#", range(10, 11), 4) for c in ("fs_perm", "fs_symb", "fs_simpleSymb", "fs_stratRob", "fs_stratJson")], []) + seeds("fs_verdict", "i1o3a1g1:E0S0e#s#A#G#", range(10, 12), 5) + T("fs_verdict", "i1o2a1g1:E0S0e1s1A0G0", "i1o2a1g1:E0S0e0s1A1G1", cap=20),
         "thorough": sum([M(c, "i1o2a1g1:E0S0e0s1A0G1", cap=2000) + T(c, "i1o2a1g1:E2S0e1s1A0G1", "i1o2a1g1:E0S0e0s2A0G0", "i1o1a1g2:E0S0e1s2A1G1", "i1o3a1g1:E0S0e0s1A0G0", cap=2000) + seeds(c, "i1o2a2g2:E0S0e#s#A#G#", range(400, 430), 60) + seeds(c, "i2o2a1g2:E0S0e#s#A#G#", range(400, 420), 60) for c in ("fs_verdict", "fs_verdictRobotics", "fs_strat", "fs_stratRob", "fs_perm", "fs_symb", "fs_simpleSymb")], [])},
}
PROPS["C32"] = {"quick": M("optionSequence", "L3") + M("optionSubset", "L4") + M("optionNear", "L1") + M("optionVerdict", "i1o1a1g1:E2S2e0s1A0G1", "i1o1a1g1:E0S0e0s2A0G1", "i1o1a1g2:E0S0e0s1A0G1") + T("optionVerdict", "i1o1a1g1:E2S2e1s1A1G1", cap=60) + T("optionVerdict", "i1o1a2g2:E0S0e10s10A10G10", "i1o1a2g1:E0S0e11s11A11G11", cap=10) + M("optionVerdictFastSlow", "i1o2a1g1:E2S2e0s1A0G0") + T("optionVerdictFastSlow", "i1o2a1g2:E0S0e10s10A10G10", "i1o2a1g1:E0S0e0s1A0G1", cap=20),
  "thorough": M("optionSequence", "L3") + T("optionSequence", "L4", cap=2000) + M("optionSubset", "L4") + T("optionSubset", "L5", "L6", cap=1500) + M("optionNear", "L2", cap=900) + T("optionNear", "L3", cap=2000) + T("optionVerdict", "i1o1a1g1:E2S2e1s1A1G1", "i1o1a1g1:E0S0e2s2A0G1", "i1o1a1g2:E2S2e0s1A1G1", "i1o1a2g2:E0S0e1s1A1G0", cap=1500) + seeds("optionVerdict", SML, range(10, 20), 200) + seeds("optionVerdictFastSlow", "i1o2a2g2:E0S0e#s#A#G#", range(10, 20), 60)}
WITNESS.update({"optionSequence": [0, 1], "optionSubset": [0, 1], "optionNear": [0, 1], "optionVerdict": [0, 1], "optionVerdictFastSlow": [0, 1]})
MOT = ("motion", "motionRob", "motionInter")
PROPS["C21"] = {"quick": sum([M(c, "i1o0m1c1a1g1:E2S0e0s1A1G1R2", "i1o0m1c1a0g1:E2S0e0s1A0G1R2") + T(c, "i1o0m1c1a1g1:E0S0e1s2A0G1R2", "i1o0m1c1a1g1:E2S0e1s1A1G1R2", "i1o1m1c1a1g1:E0S0e0s1A0G0R10", cap=15) + seeds(c, "i1o1m1c1a1g1:E0S0e#s#A#G#R#", range(10, 14), 8) + seeds(c, "i1o0m2c1a1g1:E0S0e#s#A#G#R#", range(10, 14), 8) + seeds(c, "i1o0m1c2a1g2:E0S0e#s#A#G#R#", range(10, 13), 8) for c in MOT], []) + T("motion", "i1o0m1c1a1g1:E2S2e0s1A1G1R2", "i1o0m1c1a1g2:E0S0e0s1A0G1R2", cap=20),
  "thorough": sum([M(c, "i1o0m1c1a1g1:E2S0e1s1A1G1R2", "i1o0m1c1a1g1:E0S0e2s2A0G1R2", cap=2000) + T(c, "i1o0m1c1a1g2:E2S0e1s1A1G1R2", "i1o1m1c1a1g1:E0S0e0s1A0G0R2", "i1o0m2c1a1g2:E0S0e0s0A1G1R10", "i1o0m1c2a1g1:E0S0e1s2A0G1R10", cap=1200) + seeds(c, "i1o1m1c1a2g2:E0S0e#s#A#G#R#", range(10, 40), 60) + seeds(c, "i1o0m2c1a1g2:E0S0e#s#A#G#R#", range(400, 430), 60) for c in MOT], [])}
WITNESS.update({c: [0, 1] for c in MOT})
INTER = ("interStep", "interRandom", "interFollow", "interMove", "interCheck", "interComplete", "interTrans")
PROPS["C19"] = {"quick": sum([M(c, "i1o1a1g2:E0S0e1s1A0G1", "i1o1a1g1:E2S2e0s1A0G0") + T(c, "i1o1a1g1:E0S0e0s2A0G1", "i1o1a2g1:E0S0e0s1A1G1", cap=6) + seeds(c, SML, range(11, 13), 3) + seeds(c, "i2o1a1g2:E0S0e#s#A#G#", range(14, 15), 3) + seeds(c, "i1o2a2g1:E0S0e#s#A#G#", range(10, 11), 3) for c in INTER], []),
  "thorough": sum([M(c, "i1o1a1g2:E0S0e1s1A0G1", "i1o1a1g1:E2S2e1s1A0G1", cap=1500) + T(c, "i1o1a1g1:E0S0e0s2A0G1", "i1o1a2g1:E0S0e0s1A1G1", "i1o1a2g2:E0S0e0s1A1G1", "i1o1a1g1:E2S2e0s1A1G1", cap=900) + seeds(c, SML, range(400, 420), 60) + seeds(c, "i2o1a2g2:E0S0e#s#A#G#", range(10, 20), 60) + seeds(c, "i1o2a2g2:E0S0e#s#A#G#", range(10, 20), 60) for c in INTER], [])}
WITNESS.update({c: [0, 1] for c in INTER})
PROPS["C24"] = {"quick": M("estimator", "i1o1a0g0:E2S2e2s2", "i1o1a0g0:E2S2e1s1", "i2o1a0g0:E2S2e1s1") + M("estimatorMinMax", "i1o2a0g0:E0S0e0s2", "i1o2a0g0:E2S2e2s1") + T("estimator", "i2o1a0g0:E0S0e2s1", "i2o1a0g0:E2S0e1s211", "i1o2a0g0:E0S2e1s1", "i3o1a0g0:E213S217e313s614", "i3o1a0g0:E0S0e1s14", "i2o1a0g0:E2S213e1s0", "i3o1a0g0:E0S0e3s0", "i3o1a0g0:E0S2e13s0", cap=8) + T("estimatorMinMax", "i2o2a0g0:E0S0e1s1", "i1o3a0g0:E0S2e0s1", "i1o2a0g0:E0S2e1s1", cap=8),
  "thorough": M("estimator", "i1o1a0g0:E2S2e2s2", "i2o1a0g0:E2S2e1s1", "i2o1a0g0:E0S0e2s1", cap=900) + T("estimator", "i2o1a0g0:E2S2e2s1", "i3o1a0g0:E0S0e1s14", "i3o1a0g0:E0S0e1s1", "i2o2a0g0:E0S0e1s1", "i4o1a0g0:E0S0e1s213", cap=1500) + T("estimatorMinMax", "i1o2a0g0:E2S2e2s2", "i1o3a0g0:E0S2e0s1", "i2o2a0g0:E0S2e1s1", "i1o4a0g0:E0S0e0s1", cap=1500)}
WITNESS.update({"estimator": [0, 1], "estimatorMinMax": [0, 1]})
FS = ("EnvInit", "SysInit", "EnvTrans", "SysTrans", "EnvLive", "SysLive")
for _p, _k in (("C25", "read"), ("C26", "reject")):
    PROPS[_p] = {"quick": sum([M(_k + f, "L3") for f in FS], []) + M(_k + "Formula", "L5") + M(_k + "Buffer", "L6") + M(_k + "BufferLate", "L5") + M(_k + "BufferNested", "L5") + M(_k + "FormulaWide", "L4") + M(_k + "FormulaDeep", "L6") + M(_k + "FormulaTail", "L5") + M(_k + "File", "L3") + M(_k + "FileBare", "L4") + M(_k + "FileTail", "L3") + (M(_k + "FileDeep", "L5") if _k == "read" else []),
                 "thorough": sum([M(_k + f, "L5") for f in FS], []) + T(_k + "Formula", "L6", "L7", cap=3000) + T(_k + "Buffer", "L7", "L8", cap=2500) + T(_k + "BufferLate", "L6", "L7", cap=2000) + T(_k + "BufferNested", "L6", "L7", cap=2000) + T(_k + "FormulaWide", "L6", cap=1500) + T(_k + "FormulaDeep", "L8", cap=1500) + T(_k + "FormulaTail", "L7", cap=1500) + T(_k + "File", "L4", cap=1500) + T(_k + "FileBare", "L5", cap=2500) + T(_k + "FileTail", "L4", cap=1500) + (T(_k + "FileDeep", "L7", cap=2000) if _k == "read" else [])}
    if _k == "reject": WITNESS.update({t[0]: [0] for t in PROPS[_p]["quick"]})
import structured, wrapper, kernels, cmaps
BFNOTE = "Bounded: numbers of variables, operands and steps as listed in the evidence; nothing is claimed beyond them. Trusts the model of libcudd's documented interface; sampled paths and every counterexample are run on the unmodified library with the real libcudd."
PROPS["C27"] = {"run": wrapper.runner({"quick": M("operators", "n2k0", "n3k0", "n4k0", cap=200) + M("predicates", "n2k0", "n3k0", cap=200) + M("ownership", "n2k2", cap=200) + M("histories", "n2k2", cap=200) + M("aggregates", "n2k2", cap=200) + M("phases", "n4k0", cap=200), "thorough": M("operators", "n5k0", cap=900) + M("predicates", "n3k0", cap=900) + M("ownership", "n1k3", "n2k3", cap=3000) + T("ownership", "n1k4", cap=3000) + T("histories", "n2k3", cap=4000) + M("aggregates", "n2k3", cap=3000) + M("phases", "n6k0", cap=900)}), "note": BFNOTE}
PROPS["C28"] = {"run": wrapper.runner({"quick": M("minterms", "n1k0", "n2k0", cap=200) + M("mintermsEverywhere", "n3k9", cap=200) + M("mintermsOrder", "n3k0", "n3k1", "n3k2", "n3k3", cap=200), "thorough": M("minterms", "n1k0", "n2k0", "n3k0", cap=900) + M("mintermsEverywhere", "n4k0", "n4k2", cap=3000) + T("mintermsEverywhere", "n4k1", "n4k3", cap=2000) + T("mintermsOrder", "n4k0", cap=3000)}), "note": BFNOTE}
KERN = ("and", "xor", "ite", "intersect", "leq", "exist", "xorexist", "diff", "andabs", "compose", "permute", "varmap", "constrain", "restrict")
KPUB = tuple("Cudd_bdd" + n for n in ("And", "Or", "Nand", "Nor", "Xor", "Xnor", "Intersect", "Ite", "ExistAbstract", "UnivAbstract", "AndAbstract", "XorExistAbstract", "BooleanDiff", "Constrain", "Restrict", "Compose", "Permute", "VarMap", "SwapVariables"))
PROPS["C29"] = {"run": kernels.runner({"quick": sum([M(c, "n012", "n201", cap=200) for c in KERN + KPUB], []) + M("Cudd_bddLICompaction", "n01", "n10", cap=200) + T("Cudd_bddLICompaction", "n201", cap=10) + sum([M(c, "n0213", cap=200) for c in KERN if c not in ("andabs", "xorexist")], []),
  "thorough": sum([M(c, "n012", "n201", "n3021", cap=900) + T(c, "n40213", cap=1200) for c in KERN], []) + sum([M(c, "n012", "n3021", cap=900) for c in KPUB], []) + M("Cudd_bddLICompaction", "n01", "n10", cap=200) + T("Cudd_bddLICompaction", "n201", "n012", cap=2500)}),
  "assumptions": ["every function a kernel calls behaves within its contract: recursive calls return the specified function or fail, the computed table returns what was inserted under that operation and these operands or nothing, cuddUniqueInter returns the canonical node or fails (C30), and any of them may free every node that no reference protects", "node addresses are ordered arbitrarily; reference counts of nodes that somebody else shares are arbitrary", "bounds: functions of at most 3 or 4 variables (5 in the thorough tier), the orders named in bounds_exhausted; by induction over the order the step covers every recursion depth over these variables"],
  "technique": "symbolic execution of CUDD's C sources (compiled from /repo over symbolic nodes): one activation of every recursive kernel with symbolic operand functions, its callees replaced by contracts, decided by SAT",
  "note": "Bounded: operand functions over 3 or 4 variables under the orders listed in the evidence; nothing is claimed beyond them. Callees are replaced by contracts; counterexamples are replayed with the complete library built from /repo and, step by step, with the recorded answers of the callees."}
PROPS["C33"] = {"run": cmaps.runner({"quick": cmaps.Q, "thorough": cmaps.D}, ["st.c (whole file)"], "one operation on an arbitrary well-formed table with the numbers of entries and bins named in bounds_exhausted (chains in any order, density limit 1 or 2, reorder flag on or off, any hash function given by solver-chosen values), checked by CBMC with the unwinding named there and unwinding assertions; strings of at most 5 characters for the string hash"),
  "assumptions": ["CBMC's memory model and its models of malloc, free and strcmp; allocation succeeds except where the task says that memory may run out", "tables with at most 2 or 3 entries (4 in the thorough tier) in 1 to 3 bins before the operation; since one operation is checked on every well-formed table, every history that stays within these sizes is covered"],
  "technique": "bounded model checking (CBMC, SAT) of /repo's C source: one operation on an arbitrary well-formed symbolic table",
  "note": "Bounded: table sizes as stated in the evidence; nothing is claimed beyond them. Trusts CBMC and the harness; every counterexample is replayed by the same harness compiled natively with address and undefined-behaviour sanitizers."}
PROPS["C34"] = {"run": cmaps.runner({"quick": cmaps.epds(40, 5), "thorough": cmaps.epds(42, 9)}, ["epd.c (all functions except the decimal conversions)"], "all signs, exponents between -3000 and 3000, mantissas with 5 fractional bits (9 in the thorough tier) for the arithmetic, every normal double for the conversion, powers of two up to 3999; exponents at most 40 or more than 60 apart for addition and subtraction"),
  "assumptions": ["CBMC's model of IEEE 754 double arithmetic (round to nearest) and of the bit fields of the double; pow(2, n) is exact", "mantissas, exponents and distances as stated in the bounds; zero and denormal operands and the decimal conversions are outside the claim"],
  "technique": "bounded model checking (CBMC, SAT) of /repo's C source over symbolic floating-point operands against integer arithmetic",
  "note": "Bounded: operand mantissas and exponents as stated in the evidence; nothing is claimed beyond them. Trusts CBMC's floating-point encoding; every counterexample is replayed by the same harness compiled natively."}
PROPS["C31"] = {"run": structured.run, "assumptions": structured.ASSUME, "technique": "symbolic execution of the real Python program: symbolic integers in the specification, branches decided and output formulas compared with the constraint's meaning by z3",
  "note": "Bounded: ranges, numerals and formula depth as stated in the evidence; nothing is claimed beyond them. Trusts z3 and the reference semantics of the structured language; sampled paths and every counterexample are run on the unmodified program."}
NA = {"C30": "CBMC was tried on cuddTable.c, cuddRef.c and cuddReorder.c with a symbolic well-formed table (any hash function, any address order): symbolic execution does not finish even for one variable node per level, because every node access goes through pointers that carry the complement bit in their low bit and so may point anywhere in the node pool. The kernels check (C29) assumes this property as the contract of cuddUniqueInter; sampled models of every check run on the complete library, which exercises it without deciding it."}
