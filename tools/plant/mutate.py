#!/usr/bin/env python3
"""Applies small systematic changes to a copy of /repo and runs the checks of the changed file against it.
   mutate.py [--narrow|--swap] [--every N] [--offset K] [--out FILE] [files...]     prints one line per change; SURVIVED ones need a look"""
import sys, os, re, subprocess, shutil, time, hashlib
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
COPY = os.environ.get("MUT_COPY", "/tmp/mu")
M = [("include/matrix/csr.1.h", "C01 C18 C05 C06"), ("include/matrix/csr.2.h", "C01 C18 C05 C06"), ("include/matrix/cswr.h", "C01 C18 C06 C03"), ("include/matrix/crcsr.h", "C01 C05 C18 C06"),
     ("include/matrix/dense.h", "C01 C02 C06 C18"), ("include/matrix/coo.1.h", "C02 C01 C06 C18"), ("include/matrix/coo.2.h", "C01 C05 C06"), ("include/matrix/coo.3.h", "C01 C05 C06"),
     ("include/matrix/block_coo.1.h", "C01 C02 C06"), ("include/matrix/block_coo.2.h", "C01 C02 C06"), ("include/matrix/block_csr.h", "C02 C01 C06"), ("include/matrix/blocks.h", "C02 C18"),
     ("include/matrix/csbr.h", "C02 C18 C04 C21 C06 C05"), ("include/matrix/csbr.2.h", "C02 C18 C21 C06 C03"), ("include/matrix/csbr.3.h", "C02 C18 C06"), ("include/matrix/cgbr.h", "C02 C18 C04 C06 C21 C12"),
     ("include/matrix/cgbr.2.h", "C02 C18 C04 C06 C21"), ("include/spmv/", "C01 C03 C02 C22"), ("include/partition.h", "C04 C02"), ("include/utils.h", "C16 C21 C07 C02 C15"), ("include/io/input.h", "C11 C10 C13 C08"),
     ("include/io/output.h", "C11 C10 C09 C13 C06"), ("include/io/blocked.h", "C12 C13 C06"), ("include/permute.h", "C14 C17"), ("include/expand.h", "C15"), ("src/common.cpp", "C19 C16 C20 C13"),
     ("dep/mm_io/mm_io.c", "C23 C08 C09 C13"), ("include/test/", "C19 C20"), ("include/generic/coo.h", "C01 C05 C18"), ("include/generic/csr.h", "C18 C20"), ("include/generic/gsb.h", "C18 C20"), ("include/generic/base.h", "C18 C02"),
     ("dep/pss/", "C07"), ("src/tools/", "C17"), ("src/drivers/", "C20"), ("include/common.h", "C24 C19 C20 C16"), ("include/params.h", "C16 C04"), ("include/rt.h", "C03 C07"), ("include/typedefs.h", "C12 C10")]
SKIP = re.compile(r"^\s*(//|\*|/\*|#(?!pragma omp))|^\s*$|^\s*template|^\s*(struct|class|enum|typedef|using|namespace)\b|DEBUG\(")
REL = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "==")]

def variants(l):
    code = l.split("//")[0].rstrip("\n")
    out = []
    ctx = re.search(r"\b(for|if|while|return|assert)\b|\?|&&|\|\||=", code)
    if "#pragma" in code:
        out.append(("drop pragma", "\n")); return out
    if ctx and "<<" not in code and "include" not in code:
        for a, b in REL:
            for m in re.finditer(re.escape(a), code): out.append((a + " -> " + b, code[:m.start()] + b + code[m.end():]))
        if re.search(r"\b(for|if|while|return|assert)\b|&&|\|\|", code):
            for m in re.finditer(r"(?<=[\w\)\] ])<(?=[ \w\(])(?!=)", code):
                if not re.search(r"(template|cast|vector|numeric_limits|Triplet|Element|Coo\d?|NonZero|max|min|Csr\d?)\s*$", code[:m.start()]): out.append(("< -> <=", code[:m.start()] + "<=" + code[m.end():]))
            for m in re.finditer(r"(?<=[\w\)\] ])>(?=[ \w\(])(?!=)", code):
                if code[m.start() - 1] != "-": out.append(("> -> >=", code[:m.start()] + ">=" + code[m.end():]))
    for m in re.finditer(r"\s?[+-]\s?1\b(?!\d)", code): out.append(("drop +-1", code[:m.start()] + code[m.end():]))
    for m in re.finditer(r"[+-]=", code): out.append((m.group() + " -> =", code[:m.start()] + "=" + code[m.end():]))
    for m in re.finditer(r"&&", code): out.append(("&& -> ||", code[:m.start()] + "||" + code[m.end():]))
    for m in re.finditer(r"\|\|", code): out.append(("|| -> &&", code[:m.start()] + "&&" + code[m.end():]))
    for m in re.finditer(r"(?<![\w.\"%])(\d+)(?![\w.\"])", code):
        if '"' not in code: out.append(("constant", code[:m.start()] + str(int(m.group()) + 1) + code[m.end():]))
    for m in re.finditer(r"\]\(\)", code): out.append(("not zeroed", code[:m.start()] + "]" + code[m.end():]))
    m = re.search(r"return\s+-\d+;", code)
    if m: out.append(("return 0", code[:m.start()] + "return 0;" + code[m.end():]))
    for m in re.finditer(r"(?<=[\w\)\]]) ?([*/%+-]) ?(?=[\w\(])", code):
        if ctx and m.group(1) in "*/%+-" and '"' not in code and not re.search(r"(char|IT|T|const|FILE|void|int|size_t|DENSE<T,IT>|\>)\s*$", code[:m.start()] + (" " if m.group()[0] == " " else "")):
            out.append((m.group(1) + " swapped", code[:m.start()] + {"*": "+", "/": "*", "%": "/", "+": "-", "-": "+"}[m.group(1)] + code[m.end():]))
    if code.rstrip().endswith(";") and re.match(r"^\s*[\w\[\]().>*&-]+(\s*\[.*\])?\s*(=|\+=|-=|\+\+|\(|->|\.)", code) and not re.match(r"^\s*(return|break|continue|const|int|IT|T|bool|size_t|double|float|unsigned|long|char|FILE|typedef|delete|using)\b", code):
        out.append(("statement dropped", "\n"))
    if re.match(r"^\s*(delete|free|fclose|release)\b", code): out.append(("release dropped", "\n"))
    m = re.match(r"^(\s*(?:\}\s*else\s+)?if\s*)\((.*)\)(\s*\{?.*)$", code)
    if m and code.count("(") == code.count(")"): out.append(("condition negated", m.group(1) + "(!(" + m.group(2) + "))" + m.group(3)))
    seen = set(); res = []
    for n, c in out:
        if c not in seen and c != code: seen.add(c); res.append((n, c if c.endswith("\n") else c + "\n"))
    return res

def narrow(l):
    """declarations and casts with a narrower type"""
    code = l.split("//")[0].rstrip("\n"); res = []
    if "operator" in code: return res
    for a, b in (("IT", "uint16_t"), ("SIT", "uint8_t"), ("T", "float"), ("T", "int"), ("double", "float"), ("size_t", "uint16_t"), ("long", "int"), ("uint64_t", "uint32_t"), ("unsigned long", "unsigned"), ("float", "int")):
        for m in re.finditer(r"(?<![\w<,:])\b" + a + r"\b(?=\s+\w+\s*[=;,)]|\)|\()(?!\s*\*)", code):
            if re.search(r"[<,]\s*$", code[:m.start()]) and "(" not in code[:m.start()]: continue
            res.append((a + " -> " + b, code[:m.start()] + b + code[m.end():] + "\n"))
    return res

PAIRS = [("row", "col"), ("rows", "columns"), ("rows", "cols"), ("br", "bc"), ("br_size", "bc_size"), ("br_offset", "bc_offset"), ("blockrows", "blockcols"), ("blockrow_offset", "blockcol_offset"),
         ("bcol_offset", "brow_offset"), ("I", "J"), ("first", "last"), ("start", "end"), ("row_start", "row_end"), ("coo", "csr"), ("csr", "dense"), ("min", "max"), ("true", "false"), ("BLOCK_COO", "BLOCK_CSR"),
         ("blockrow_start", "blockrow_end"), ("sizeof(IT)", "sizeof(T)"), ("sizeof(SIT)", "sizeof(IT)"), ("i", "j"), ("i", "k"), ("j", "k"), ("r", "c"), ("m", "n"), ("M", "N"), ("rowbits", "colbits"), ("nnz", "nnzblocks"),
         ("nnz", "rows"), ("calloc", "malloc"), ("continue", "break"), ("fr", "fc"), ("fc", "fv"), ("max_row", "max_col"), ("b", "br"), ("i", "i+1"), ("nr", "nc"), ("&&", "||"), ("set_row_index", "set_column_index"),
         ("get_block_row_offset", "get_block_column_offset"), ("get_row_index", "get_column_index"), ("stable_sort", "sort"), ("upper_bound", "lower_bound"), ("p", "pinv"), ("dynamic", "static"), ("firstprivate", "private")]

def swap(l):
    """one name in place of its sibling; one half of a condition"""
    code = l.split("//")[0].rstrip("\n"); res = []; seen = set()
    strings = [m.span() for m in re.finditer(r'"[^"]*"', code)]
    for a, b in PAIRS + [(b, a) for a, b in PAIRS]:
        for m in re.finditer((r"(?<!\w)" if a[0].isalpha() else "") + re.escape(a) + (r"(?!\w)" if a[-1].isalnum() else ""), code):
            if any(x <= m.start() < y for x, y in strings): continue
            if a in "ijkmnMNIJrcpb" and re.search(r"\b(IT|int|size_t|Index_t|RIT|T)\s+\*?$", code[:m.start()]): continue
            c = code[:m.start()] + b + code[m.end():]
            if c not in seen: seen.add(c); res.append((a + " for " + b, c + "\n"))
    m = re.match(r"^(\s*(?:\}\s*else\s+)?(?:if|while)\s*\()(.*)(\)\s*[\w\-;.+({\[\]]*)$", code)
    if m:
        for op in (" && ", " || "):
            h = m.group(2).split(op)
            if len(h) > 1:
                for k in range(len(h)):
                    c = m.group(1) + op.join(h[:k] + h[k + 1:]) + m.group(3)
                    if c.count("(") == c.count(")"): res.append(("half dropped", c + "\n"))
    return res

def main():
    global variants
    a = sys.argv[1:]; every = 9; offset = 0; out = None; files = []; count = False; match = None
    while a:
        x = a.pop(0)
        if x == "--every": every = int(a.pop(0))
        elif x == "--offset": offset = int(a.pop(0))
        elif x == "--narrow": variants = narrow
        elif x == "--swap": variants = swap
        elif x == "--match": match = re.compile(a.pop(0))
        elif x == "--count": count = True
        elif x == "--out": out = a.pop(0)
        else: files.append(x)
    log = open(out, "a") if out else sys.stdout
    all_files = subprocess.check_output(["git", "-C", "/repo", "ls-files"], text=True).split()
    for f in all_files:
        if not re.search(r"\.(h|cpp|c)$", f) or "/test/" in f and f.startswith("src"): continue
        if any(f.endswith(x) for x in ("bcsr.h", "sgsb.h", "block_static.cpp", "threads.h", "pss_common.h")): continue
        if files and not any(f.startswith(x) for x in files): continue
        checks = next((c for p, c in M if f.startswith(p)), None)
        if not checks: continue
        src = open("/repo/" + f, newline="").read().split("\n")
        muts = []
        for n, l in enumerate(src):
            if SKIP.search(l): continue
            for name, new in variants(l + "\n"):
              if not match or match.search(name): muts.append((n, name, new.rstrip("\n")))
        pick = [m for i, m in enumerate(muts) if i % every == offset % every]
        if count: print(f, len(pick), *(["  %s | %s" % (src[n].strip()[:70], new.strip()[:70]) for n, name, new in pick[:3]]), sep="\n"); continue
        for n, name, new in pick:
            shutil.rmtree(COPY, ignore_errors=True); os.makedirs(COPY)
            subprocess.check_call("git -C /repo archive HEAD | tar x -C " + COPY, shell=True)
            s = list(src); s[n] = new; open(COPY + "/" + f, "w", newline="").write("\n".join(s))
            t = time.time(); res = "SURVIVED"
            for c in checks.split():
                try: r = subprocess.run([sys.executable, "run.py", c], cwd=HERE, env=dict(os.environ, VERIF_REPO=COPY), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                except subprocess.TimeoutExpired: res = "TIMEOUT " + c; break
                o = r.stdout.decode(errors="replace")
                if r.returncode == 1 and "VIOLATION" in o: res = "caught " + c; break
                if r.returncode != 0: res = "nobuild" if "error" in o else "BROKEN " + c + " " + o[-200:].replace("\n", " "); break
            print("%s %s:%d [%s] %.0fs |%s| -> |%s|" % (res, f, n + 1, name, time.time() - t, src[n].strip()[:100], new.strip()[:100]), file=log, flush=True)
main()
