# property table (executed by check.py)
PROPS["C01"] = P(["mod_hash"], HASH, D_HASH, real="hash", rule="non-trivial = at least one finished digest was compared after at least one chunk, copy or reset")
PROPS["C02"] = P(["mod_hash"], HASH, D_HASH, real="hash", rule="non-trivial = at least one finished value was compared after at least one chunk, copy or reset")
PROPS["C03"] = P(["mod_hash"], HASH, D_HASH, real="hash", rule="non-trivial = at least one finished MAC was compared after at least one chunk or copy")
LIB4 = ["simd_asan", "plain_asan", "port", "simd", "sse2"]
PROPS["C04"] = P(["mod_mode"], MODE, D_CIPH, libs=LIB4, real="mode", rule="non-trivial = a finished stream (or a refused finish) was compared with the one-shot result")
PROPS["C05"] = P(["mod_mode"], MODE + GCM, D_CIPH, real="mode", rule="non-trivial = at least one finish was checked after a life-cycle event (reset, init, copy, failure, fault)")
PROPS["C06"] = P(["mod_mode"], GCM, D_CIPH, libs=LIB4, real="gcm", rule="non-trivial = ciphertext and tag of a finished stream compared with SP 800-38D")
PROPS["C07"] = P(["mod_mode"], GCM, D_CIPH, libs=LIB4, real="gcm", rule="non-trivial = a received stream (intact or damaged) was finished and judged against SP 800-38D")
PROPS["C09"] = P(["mod_sm2"], SM2, D_SM2, libs=STD3, budget=20, real="sm2", rule="non-trivial = at least one signature was produced and judged against GB/T 32918.2")
PROPS["C10"] = P(["mod_sm2"], SM2, D_SM2, libs=STD3, budget=20, real="sm2", rule="non-trivial = at least one verification verdict was compared with GB/T 32918.2")
PROPS["C11"] = P(["mod_sm2"], SM2, D_SM2, libs=STD3, budget=25, real="sm2", rule="non-trivial = at least one ciphertext was judged and decrypted in every build")
PROPS["C12"] = P(["mod_sm2"], SM2, D_SM2, libs=STD3, budget=20, real="sm2", rule="non-trivial = at least one corrupted or crafted ciphertext was decrypted and judged")
PROPS["C13"] = P(["mod_sm2"], SM2, D_SM2, libs=STD3, budget=25, real="sm2", rule="non-trivial = at least one import, generation or whole-object comparison was judged")
PROPS["C14"] = P(["mod_sm2", "mod_sm9", "mod_c14"], SM2 + SM9, D_SM2 + ["sm9"], libs=STD3, budget=35, real="sm2", rule="non-trivial = at least one object was compared with a fresh object after a failed or refused operation, or a result was judged")
PROPS["C15"] = P(["mod_sm9"], SM9, D_SM9, libs=STD3, budget=25, real="sm9", rule="non-trivial = at least one user key or signature was judged against GB/T 38635")
PROPS["C16"] = P(["mod_sm9"], SM9, D_SM9, libs=STD3, budget=35, real="sm9", rule="non-trivial = at least one verification verdict was compared with GB/T 38635")
PROPS["C17"] = P(["mod_sm9"], SM9, D_SM9, libs=STD3, budget=35, real="sm9", rule="non-trivial = at least one key was compared with the model after generation, import, export or copy")
PROPS["C21"] = P(["mod_asn1"], ["shim_asn1"], D_SM2, libs=STD3, real="asn1", budget=10, rule="non-trivial = at least one element was encoded and decoded, or stored data was read back after a fault")
PROPS["C22"] = P(["mod_asn1"], ["shim_asn1"], D_SM2, libs=STD3, real="asn1", budget=10, rule="non-trivial = at least one SM2 object was written, damaged or not, and read back")
PROPS["C23"] = P(["mod_dump"], ["shim_asn1", "shim_dump"], D_SM2, libs=STD3, real="asn1", budget=10, rule="non-trivial = at least one dump was printed into the simulated stream and judged")
PROPS["C19"] = P(["mod_rng"], ["shim_rng"], [], libs=["simd_asan", "simd"], fast=["mod/mod_rng.cpp"], real="rng", budget=10, must=["fault.burst-within-retries", "fault.burst-beyond-retries", "fault.device-silent"], rule="non-trivial = at least one byte handed out was traced to a device read")
PROPS["C20"] = P(["mod_rng"], ["shim_rng"], [], libs=["simd_asan", "plain_asan", "port", "simd"], fast=["mod/mod_rng.cpp"], real="rng", budget=10, must=["fault.device-failure", "fault.clock-jump-back"], rule="non-trivial = at least one byte handed out was traced to a device or C library read")
PROPS["C08"] = P(["mod_threads", "tsan_rt"], HASH + MODE + GCM + SM2 + SM9 + ["shim_asn1"], None, libs=["tsan_port", "tsan_simd", "tsan_plain", "tsan_sse2"], real="threads", asan_exe=False, fast=["mod/tsan_rt.cpp"], budget=45, cpu=60, state="hash of the whole sequence of context switches (which thread, at which access)", rule="non-trivial = at least two threads ran with at least one preemption and every transcript was compared with the thread running alone")
PROPS["C18"] = P(["mod_fleet"], HASH + MODE + GCM + SM2 + SM9 + ["shim_asn1"], None, libs=["simd_asan", "plain_asan", "port", "simd", "sse2"], real="fleet", budget=30, state="hash of (sender build, receiver build, suite, payload size class) of every delivery and handshake", must=["fault.crash", "fault.message-lost", "fault.message-corrupted", "fault.partition"], rule="non-trivial = at least one session was opened between two nodes")
PROPS["C26"] = P(["mod_winrng"], ["shim_winrng"], [], libs=["simd_asan", "port"], real="winrng", budget=6, libflags=["-I" + os.path.join(V, "shim", "win")], must=["fault.request-failed", "fault.provider-refused", "fault.service-down"], rule="non-trivial = at least one byte handed out was traced to the simulated operating system")

# runs every worker does even on a slow or loaded machine (about half of what it
# does in the quick budget on an idle one); at most five budgets are spent on them
for _k, _v in {'C01': 15637, 'C02': 15174, 'C03': 16431, 'C04': 16366, 'C05': 12316, 'C06': 12110, 'C07': 9857, 'C08': 190, 'C09': 1166, 'C10': 893, 'C11': 657, 'C12': 1137, 'C13': 338, 'C14': 141, 'C15': 190, 'C16': 185, 'C17': 62, 'C18': 229, 'C19': 7379, 'C20': 2070, 'C21': 12558, 'C22': 6735, 'C23': 15919, 'C26': 6769}.items():
    PROPS[_k]["floor"] = _v
