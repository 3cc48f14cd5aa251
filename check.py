#!/usr/bin/env python3
"""check.py <id> [--tier quick|thorough] [--replay FILE] [--only SUB] [--cases N] [--seed N]
Builds the harness of one property from /repo's working tree, runs the generated search, writes
evidence/<id>.json.  Exit 0: held;  1: VIOLATION line printed;  2: error of the check."""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VF_REPO", "/repo"); B = os.environ.get("VF_BUILD", os.path.join(V, "build"))
VERSION = (lambda m: ['-DVF_VERSION="%s"' % m.group(1)] if m else [])(re.search(r"project\s*\(\s*libnostr-c\s+VERSION\s+([0-9.]+)", open(REPO + "/CMakeLists.txt").read()) if os.path.exists(REPO + "/CMakeLists.txt") else None)
sys.path.insert(0, os.path.join(V, "props"))
sys.dont_write_bytecode = True
FEATURES = "NIP05 NIP10 NIP13 NIP18 NIP25 NIP26 NIP49 NIP51 NIP57 NIP65 RELAY RELAY_PROTOCOL HD_KEYS JSON_ENHANCED THREADING CRYPTO_SECP256K1".split()
HAVE = "HAVE_SECP256K1 HAVE_CJSON HAVE_LIBWEBSOCKETS HAVE_UTF8PROC HAVE_SCHNORRSIG_SIGN32".split()
ENC_FEATURES = "NIP04 NIP17 NIP44 NIP46 NIP47 NIP59 CRYPTO_NOSCRYPT".split()
PLAIN, PLAIN_OFF = False, {"RELAY", "JSON_ENHANCED", "THREADING"}   # configuration without cJSON, threads and relay client
ENC_SRC = {"nip44.c", "nip17.c", "nip59.c", "nip46.c", "nip47.c", "nip47_commands.c", "nip47_session.c", "nip04.c"}
REDEF = {"malloc": "vf_malloc", "calloc": "vf_calloc", "realloc": "vf_realloc", "free": "vf_free", "strdup": "vf_strdup", "__strdup": "vf___strdup",
         "strndup": "vf_strndup", "__strndup": "vf___strndup", "time": "vf_time", "gettimeofday": "vf_gettimeofday", "clock_gettime": "vf_clock_gettime", "RAND_bytes": "vf_RAND_bytes", "EVP_PBE_scrypt": "vf_EVP_PBE_scrypt", "pthread_create": "vf_pthread_create", "pthread_mutex_lock": "vf_mutex_lock", "pthread_mutex_unlock": "vf_mutex_unlock", "mbedtls_ctr_drbg_random": "vf_mbedtls_ctr_drbg_random", "secp256k1_context_create": "vf_secp256k1_context_create", "secp256k1_context_destroy": "vf_secp256k1_context_destroy"}
RACE = "SHA256 HMAC PKCS5_PBKDF2_HMAC EVP_EncryptUpdate EVP_DecryptUpdate EVP_EncryptFinal_ex EVP_DecryptFinal_ex EVP_EncryptInit_ex EVP_DecryptInit_ex EVP_CIPHER_CTX_ctrl secp256k1_keypair_create secp256k1_keypair_xonly_pub secp256k1_schnorrsig_sign32 secp256k1_schnorrsig_verify secp256k1_xonly_pubkey_parse secp256k1_xonly_pubkey_serialize secp256k1_xonly_pubkey_from_pubkey secp256k1_ec_pubkey_create secp256k1_ec_pubkey_parse secp256k1_ec_pubkey_serialize secp256k1_ec_seckey_tweak_add secp256k1_ec_seckey_verify secp256k1_ecdh mbedtls_sha256".split()   # threads: calls announced to the sanitizer (fw/vf_race.cpp)
LWS = "lws_create_context lws_client_connect_via_info lws_service lws_write lws_close_reason lws_context_destroy lws_set_opaque_user_data lws_get_opaque_user_data lws_callback_on_writable lws_partial_buffered lws_send_pipe_choked lws_context_user lws_cancel_service lws_set_log_level lws_set_timeout lws_get_context lws_is_final_fragment lws_is_first_fragment lws_remaining_packet_payload".split()
SAN = {"asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"], "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"], "trace": ["-fno-omit-frame-pointer"]}
# Calls the library makes out of itself go through stubs that clear the stack the callee used (kind "trace"), and that can fail instead.
STUB_SKIP = {"memcpy", "memmove", "memset", "memcmp", "strlen", "strcmp", "strncmp", "strchr", "strrchr", "abort", "__stack_chk_fail", "__assert_fail", "explicit_bzero", "_setjmp", "longjmp"}
STUB_FAIL = [(r"secp256k1_(?!context|ecdh$|xonly_pubkey_serialize$).*|secp256k1_ecdh|secp256k1_xonly_pubkey_serialize|EVP_(Encrypt|Decrypt|Cipher|Digest).*|PKCS5_PBKDF2_HMAC|vf_EVP_PBE_scrypt|SHA256|HMAC|EVP_CIPHER_CTX_new", 0), (r"NC(GetPublicKey|ValidateSecretKey|SignDigest|GetSharedSecret|EncryptionSet.*|Encrypt|Decrypt|ComputeMac|VerifyMac)", -10)]
def stubs(d, objs):
    called, defined = set(), set()
    for o in objs:
        called |= set(l.split()[4] for l in sh(["readelf", "-Wr", o]).splitlines() if "R_X86_64_PLT32" in l)
        defined |= set(l.split()[-1] for l in sh(["nm", o]).splitlines() if len(l.split()) == 3)
    names = sorted(called - defined - STUB_SKIP); a = [".text"]
    for n in names:
        a += [".globl vs_%s" % n, "vs_%s:" % n]
        for r, v in STUB_FAIL:
            if re.fullmatch(r, n): a += ["  subq $1, vs_fail(%rip)", "  jnz 2f", "  movq $%d, %%rax" % v, "  ret", "2:"]; break
        a += ["  movq vs_sp(%rip), %r11", "  popq %r10", "  movq %r10, (%r11)", "  addq $8, %r11", "  movq %r11, vs_sp(%rip)", "  leaq vs_return(%rip), %r10", "  pushq %r10", "  jmp %s@PLT" % n]
    a += ["vs_return:", "  movq %rax, %r8", "  leaq -98304(%rsp), %rdi", "  movl $12288, %ecx", "  xorl %eax, %eax", "  rep stosq", "  movq %r8, %rax", "  movq vs_sp(%rip), %r11", "  subq $8, %r11", "  movq %r11, vs_sp(%rip)", "  jmp *(%r11)",
          ".data", ".globl vs_fail", "vs_fail: .quad 0", ".globl vs_sp", "vs_sp: .quad vs_shadow", ".bss", ".lcomm vs_shadow, 65536", '.section .note.GNU-stack,"",@progbits']
    open(d + "/stubs.s", "w").write("\n".join(a) + "\n"); open(d + "/redef2", "w").write("".join("%s vs_%s\n" % (n, n) for n in names))
    for o in objs: sh(["objcopy", "--redefine-syms=" + d + "/redef2", o])
    sh(["clang", "-c", d + "/stubs.s", "-o", d + "/zz_stubs.o"])

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode: raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout
def digest(paths, *extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]
def digest_text(paths):      # of contents only, for files whose place does not matter
    h = hashlib.sha256()
    for p in paths: h.update(os.path.basename(p).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()
def tree(*dirs):
    return [os.path.join(d, f) for top in dirs for d, _, fs in os.walk(top) for f in fs]
def prune(prefix, keep=3):
    ds = sorted(glob.glob(os.path.join(B, prefix + "*")), key=os.path.getmtime, reverse=True)
    for d in ds[keep:]: shutil.rmtree(d, ignore_errors=True)
def features(inc, mbed, nip44):
    t = open(os.path.join(REPO, "include/nostr_features.h.in")).read()
    on = {"NOSTR_FEATURE_" + f for f in FEATURES if not (PLAIN and f in PLAIN_OFF)} | (set(HAVE) - ({"HAVE_CJSON", "HAVE_LIBWEBSOCKETS"} if PLAIN else set())) | ({"HAVE_MBEDTLS"} if mbed else set()) | ({"NOSTR_FEATURE_" + f for f in ENC_FEATURES} | {"HAVE_NOSCRYPT"} if nip44 else set())
    t = re.sub(r"#cmakedefine (\w+)", lambda m: "#define " + m[1] if m[1] in on else "/* #undef %s */" % m[1], t).replace("@NOSTR_FEATURE_ENCODING@", "ON")
    os.makedirs(inc, exist_ok=True); open(os.path.join(inc, "nostr_features.h"), "w").write(t)
def build_lib(mbed, san, nip44, mockws, cov):
    srcs = [s for s in sorted(glob.glob(os.path.join(REPO, "src/*.c"))) if nip44 or os.path.basename(s) not in ENC_SRC | ({"relay.c"} if PLAIN else set())]
    standin = os.path.join(V, "standin"); srcs += [standin + "/nwc_access.c"] if nip44 else []
    flags = ["-std=gnu99", "-O1", "-g1", "-w"] + (["-ftrivial-auto-var-init=pattern"] if san != "trace" else []) + SAN[san] + (["-fsanitize-coverage=inline-8bit-counters,trace-cmp"] if cov else [])
    key = digest(tree(REPO + "/src", REPO + "/include") + (tree(standin) if nip44 and os.path.isdir(standin) else []), flags, mbed, nip44, mockws, REDEF, LWS, *([RACE] if san == "tsan" else []), FEATURES, REPO, STUB_SKIP and sorted(STUB_SKIP), STUB_FAIL, "s1", *(["plain"] if PLAIN else []))
    d = os.path.join(B, "lib-%s%s%s%s%s-%s" % ("mbed" if mbed else "ossl", "-plain" if PLAIN else "", "-" + san, "-enc" if nip44 else "", "-ws" if mockws else "", key))
    if not os.path.exists(d + "/ok"):
        shutil.rmtree(d, ignore_errors=True); features(d + "/inc", mbed, nip44)
        redef = dict(REDEF)
        if san == "tsan": redef.update({x: "vf_" + x for x in RACE})
        if mockws: redef.update({x: "vf_" + x for x in LWS})
        open(d + "/redef", "w").write("".join("%s %s\n" % kv for kv in redef.items()))
        heads = [f for f in tree(REPO + "/src", REPO + "/include", *([standin] if nip44 and os.path.isdir(standin) else [])) if not f.endswith(".c")] + [d + "/inc/nostr_features.h"]
        hk = digest_text(heads); oc = os.path.join(B, "lobj"); os.makedirs(oc, exist_ok=True)
        inc = lambda x: re.findall(rb'#include\s*"([^"]*\.c)"', open(x, "rb").read())
        def one(s):
            o = os.path.join(d, os.path.basename(s) + ".o"); c = os.path.join(oc, os.path.basename(s) + "-" + digest([s], hk, flags, mbed, nip44, redef, REPO) + ".o")
            if inc(s) or not os.path.exists(c):
                tmp = c + ".tmp%d" % os.getpid()
                sh(["clang", "-c"] + flags + ["-I", d + "/inc"] + (["-I", standin, "-DNOSTR_VERIF_STANDIN"] if nip44 else []) + ["-I", REPO + "/include", "-I", REPO + "/src", s, "-o", tmp])
                sh(["objcopy", "--redefine-syms=" + d + "/redef", tmp])
                if s.endswith("/nwc_access.c"): sh(["objcopy", "--keep-global-symbol=vf_conn", tmp])
                os.rename(tmp, c)
            os.utime(c); shutil.copy(c, o)
        with cf.ThreadPoolExecutor(8) as ex: list(ex.map(one, srcs))
        if san == "trace": stubs(d, sorted(glob.glob(d + "/*.o")))
        open(d + "/ok", "w").write("")
    os.utime(d)
    return d, sorted(glob.glob(d + "/*.o"))
def variants_of(cfg):   # (name, mbedTLS, noscrypt stand-in)
    if cfg["plain"]: return [("plain-noscrypt" if cfg["nip44"] else "plain", False, cfg["nip44"])] + ([] if cfg["nip44"] else [("plain-mbedtls", True, False)])
    if cfg["nip44"]: return [("noscrypt", False, True)] + ([("noscrypt-mbedtls", True, True)] if cfg["mbed"] else [])
    return [("openssl", False, False)] + ([("mbedtls", True, False)] if cfg["mbed"] else []) + ([("noscrypt", False, True)] if cfg["enc"] else [])
def build_harness(cfg, mbed, enc, san="asan", cov=True):
    global PLAIN; PLAIN = cfg["plain"]
    with cf.ThreadPoolExecutor(2) as ex2:
        fl = ex2.submit(build_lib, mbed, san, enc, cfg["mockws"], cov)
        hs = ["fw/vf.cpp", "fw/vf_sys.cpp", "fw/oracle.cpp"] + (["fw/vf_ws.cpp"] if cfg["mockws"] else []) + (["fw/vf_race.cpp"] if san == "tsan" else []) + ["props/" + s for s in cfg["src"]] + (["standin/noscrypt_impl.cpp"] if enc else [])
        incs = tree(V + "/fw", V + "/standin") if os.path.isdir(V + "/standin") else tree(V + "/fw")
        flags = ["-std=gnu++17", "-O1", "-g1", "-Wall", "-Wno-unused-function", "-Wno-unused-variable"] + SAN[san] + ([] if cov else ["-DVF_NO_COV"]) + (["-DVF_MBEDTLS"] if mbed else []) + (["-DVF_NOSCRYPT"] if enc else []) + (["-DVF_PLAIN"] if PLAIN else []) + VERSION
        feat = os.path.join(B, "inc-%s%s%s-%s" % ("mbed" if mbed else "ossl", "-enc" if enc else "", "-plain" if PLAIN else "", digest([REPO + "/include/nostr_features.h.in"], FEATURES)))
        features(feat, mbed, enc)
        def one(s):
            src = os.path.join(V, s); key = digest([src] + [V + "/props/" + x for x in re.findall(r'#include "(\w+\.cpp)"', open(src).read())] + incs + glob.glob(V + "/props/*.h") + tree(REPO + "/include"), flags, enc, REPO)
            o = os.path.join(B, "obj", os.path.basename(s) + "-" + key + ".o"); os.makedirs(os.path.dirname(o), exist_ok=True)
            if not os.path.exists(o):
                sh(["clang++", "-c"] + flags + ["-I", feat, "-I", V + "/fw", "-I", V + "/props"] + (["-I", V + "/standin"] if enc else []) + ["-I", REPO + "/include", "-I", REPO + "/src", src, "-o", o + ".tmp%d" % os.getpid()])
                os.rename(o + ".tmp%d" % os.getpid(), o)
            return o
        with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, hs))
        libd, lobjs = fl.result()
    exe = os.path.join(libd, "h-" + digest(objs + lobjs))
    if not os.path.exists(exe):
        sh(["clang++", "-Wl,-z,now"] + SAN[san] + objs + lobjs + ["-o", exe + ".tmp", "-lwebsockets", "-lcap", "-lcjson", "-lutf8proc", "-lsecp256k1", "-lssl", "-lcrypto", "-lpthread", "-lm"] + (["-lmbedcrypto"] if mbed else []))
        os.rename(exe + ".tmp", exe)
    return exe
def known():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}

def setup(C):
    t0 = time.time(); os.makedirs(B, exist_ok=True)
    for i, c in C.items():
        san = {"tsan": "tsan", "trace": "trace"}.get(c["kind"], "asan")
        try:
            for _, m, e in variants_of(c): build_harness(c, m, e, san, san == "asan")
        except RuntimeError as e: print("BUILD ERROR %s\n%s" % (i, e))
    print("setup done in %.0f s" % (time.time() - t0)); return 0
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("id", nargs="?"); ap.add_argument("--setup", action="store_true"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--replay"); ap.add_argument("--only", default="")
    ap.add_argument("--cases", type=int); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1)); ap.add_argument("--build-only", action="store_true"); ap.add_argument("--time", type=float)
    a = ap.parse_args()
    import config
    if a.setup:   # compile the library and every harness once; the checks rebuild what changed
        sys.exit(setup(config.C))
    cfg = config.C[a.id]; t0 = time.time(); os.makedirs(B, exist_ok=True)
    san = {"tsan": "tsan", "trace": "trace"}.get(cfg["kind"], "asan"); cov = san == "asan"
    variants = variants_of(cfg)
    if a.replay:
        txt = open(a.replay).read(); v = re.search(r"variant=(\S+)", txt)[1]; _, m, e = next(x for x in variants if x[0] == v)
        exe = build_harness(cfg, m, e, san, cov)
        sys.exit(subprocess.run([exe, "--prop", a.id, "--replay", a.replay, "--hang", str(cfg["hang"]), "--racy", "1" if san == "tsan" else "0"] + (["--only", a.only] if a.only else [])).returncode)
    try: exes = [(n, build_harness(cfg, m, e, san, cov)) for n, m, e in variants]
    except RuntimeError as e: print("BUILD ERROR\n" + str(e)); sys.exit(2)
    tb = time.time() - t0
    prune("lib-", 6)
    for f in sorted(glob.glob(os.path.join(B, "lobj", "*.o")), key=os.path.getmtime, reverse=True)[600:]: os.unlink(f)
    if a.build_only: return
    cases = a.cases if a.cases is not None else cfg["quick" if a.tier == "quick" else "thorough"]
    ncpu = os.cpu_count() or 8; nworkers = cfg["extra"].get("workers", 8); k = max(1, nworkers // 4); split = [nworkers - k * (len(exes) - 1)] + [k] * (len(exes) - 1)
    out = os.path.join(B, "run-%s-%d" % (a.id, os.getpid())); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    cap = a.time or cfg["extra"].get("cap_" + a.tier, 150 if a.tier == "quick" else 600)
    procs, base = [], 0
    for (n, exe), w in zip(exes, split):
        o = os.path.join(out, n); os.makedirs(o)
        procs.append((n, o, subprocess.Popen([exe, "--prop", a.id, "--variant", n, "--seed", str(a.seed), "--cases", str(cases), "--workers", str(w), "--wbase", str(base), "--timecap", str(cap), "--out", o, "--only", a.only, "--hang", str(cfg["hang"]), "--racy", "1" if san == "tsan" else "0", "--guided", str(cfg["extra"].get("guided", 1))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace"))); base += w
    viol, err, txt = [], False, ""
    for n, o, p in procs:
        s, _ = p.communicate(); txt += s
        if p.returncode not in (0, 1): err = True; print(s[-3000:], "harness exit", p.returncode)
        viol += re.findall(r"^VIOLATION property=\S+ replay=(\S+)$", s, re.M)
    st = dict(evals=0, disc=0, nontriv=0, corpus=0, cov=0, covtotal=0, timedout=0); labels, samples, hashes = {}, [], set()
    for f in sorted(glob.glob(out + "/*/w*.txt")):
        for l in open(f, errors="replace"):
            if l.startswith("L "): _, c, k = l.rstrip("\n").split(" ", 2); labels[k] = labels.get(k, 0) + int(c)
            elif l.startswith("S "):
                x = json.loads(l[2:])
                if sum(1 for y in samples if y["class"] == x["class"]) < 2 and len(samples) < 40: samples.append(x)
            else:
                k, v = l.split(); st[k] = max(st[k], int(v)) if k in ("cov", "covtotal") else st[k] + int(v)
        h = open(f[:-4] + ".hash", "rb").read(); hashes.update(struct.unpack("<%dQ" % (len(h) // 8), h))
    kf = 0
    for k in known().get("findings", []):
        if k["property"] == a.id and k.get("status") != "fixed":
            print("KNOWN-FINDING: property=%s %s (%d cases of this run)" % (a.id, k["what"], labels.get("known finding " + k["id"], 0))); kf += 1
    ev = {"property": a.id, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": cfg["level"],
          "coverage": {"evaluations": st["evals"], "distinct_nontrivial": len(hashes), "rule": cfg["rule"], "samples": samples[:24] or [{"class": "none", "case": "run ended before any worker finished"}],
                       "discarded_by_generator": st["disc"], "nontrivial_cases": st["nontriv"], "classes": dict(sorted(labels.items())), "coverage_corpus": st["corpus"], "library_edges_hit_max_worker": st["cov"], "library_edges": st["covtotal"],
                       "variants": [n for n, _ in exes], "workers_stopped_by_time_cap": st["timedout"], "cases_per_worker_requested": cases},
          "assumptions": cfg["assume"], "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(V + "/evidence", exist_ok=True)
    if viol:
        keep = []
        rd = os.path.join(V, "evidence", "replays"); os.makedirs(rd, exist_ok=True)
        for p in viol:
            d = os.path.join(rd, os.path.basename(p)); shutil.copy(p, d); keep.append((p, d))
        for p, d in keep: txt = txt.replace(p, d)
    json.dump(ev, open(V + "/evidence/%s.json" % a.id, "w"), indent=1)
    print(txt.strip())
    print("%s: %d cases (%d non-trivial distinct), corpus %d, edges %d/%d, build %.1fs total %.1fs%s" % (a.id, st["evals"], len(hashes), st["corpus"], st["cov"], st["covtotal"], tb, time.time() - t0, ", TIME CAP HIT in %d workers" % st["timedout"] if st["timedout"] else ""))
    shutil.rmtree(out, ignore_errors=True)
    if viol: sys.exit(1)
    if err: sys.exit(2)
if __name__ == "__main__": main()
