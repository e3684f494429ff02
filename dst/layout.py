"""Spreading a program over several files, directories and libraries, with decoys that must not be picked up."""
import os
import random
from .lang import block


def decoy_text(prog, defs):
    """same interface, same definitions, one more signal and constraint in every template"""
    out = ["pragma circom 2.2.0;"]
    if any(t.get("custom") for t in prog.templates.values()):
        out.append("pragma custom_templates;")
    for k, n in defs:
        if k != "t" or prog.templates[n].get("custom"):
            out.append(prog.emit_def(k, n))
        else:
            t = dict(prog.templates[n])
            saved = prog.templates[n]
            t["body"] = t["body"] + [("sig", "", "decoy", [], []), ("<==", [(".", "decoy")], ("n", 77)),
                                     ("sig", "", "decoyb", [], []), ("<==", [(".", "decoyb")], ("b", "*", ("s", [(".", "decoy")]), ("s", [(".", "decoy")])))]
            prog.templates[n] = t
            out.append(prog.emit_def(k, n))
            prog.templates[n] = saved
    return "\n".join(out) + "\n"


def spread(prog, seed):
    """-> (files {path: text or ('link', target)}, main path, library flags, decoy paths, source paths)"""
    rng = random.Random("layout/%s" % seed)
    defs = list(prog.order)
    maind = [d for d in defs if d == ("t", prog.main[0]) or list(d) == ["t", prog.main[0]]]
    rest = [d for d in defs if d not in maind]
    k = rng.choice([1, 2, 3, 4])
    cuts = sorted(rng.randrange(len(rest) + 1) for _ in range(k - 1))
    groups = [rest[a:b] for a, b in zip([0] + cuts, cuts + [len(rest)])]
    groups = [g for g in groups if g]
    libs = ["libA", "lib/b"][:rng.choice([1, 2, 2])]
    maindir = rng.choice(["", "", "src"])
    files, decoys, where = {}, [], []
    for i, g in enumerate(groups):
        kind = rng.choice(["beside", "sub", "up", "lib", "lib"])
        name = "g%d.circom" % i
        lib = None
        if kind == "lib":
            lib = rng.choice(libs)
            d = lib
            name = rng.choice([name, os.path.join("deep", name)])
        elif kind == "beside":
            d = maindir
        elif kind == "sub":
            d = os.path.join(maindir, "inc")
        else:
            d = "shared"
        where.append((os.path.join(d, name), name if lib else None, lib))

    def inc(frm, i):
        path, libname, lib = where[i]
        if lib and not rng.random() < 0.15:
            return libname
        rel = os.path.relpath(path, os.path.dirname(frm) or ".")
        x = rng.random()
        if x < 0.2:
            rel = "./" + rel
        elif x < 0.3 and os.path.dirname(path):
            rel = os.path.join(os.path.dirname(rel), "..", os.path.basename(os.path.dirname(path)), os.path.basename(rel))
        return rel

    def said(frm, name):
        spelled.add(os.path.normpath(os.path.join(os.path.dirname(frm), name)))
        return name

    spelled = set()  # where an include looks first: beside the including file
    main = os.path.join(maindir, "p.circom")
    for i, g in enumerate(groups):
        incs = [said(where[i][0], inc(where[i][0], j)) for j in range(i) if j == i - 1 or rng.random() < 0.4]
        files[where[i][0]] = prog.text(defs=g, main=False, includes=incs)
    incs = [said(main, inc(main, j)) for j in range(len(groups)) if j == len(groups) - 1 or rng.random() < 0.6]
    if groups and rng.random() < 0.4:  # the same file by two paths
        j = rng.randrange(len(groups))
        incs.append(said(main, inc(main, j)))
    if groups and rng.random() < 0.3:
        j = rng.randrange(len(groups))
        ln = os.path.join(maindir, "ln%d.circom" % j)
        files[ln] = ("link", os.path.relpath(where[j][0], maindir or "."))
        incs.append("ln%d.circom" % j)
    if groups and rng.random() < 0.25:  # a cycle of includes
        i = rng.randrange(len(groups))
        back = rng.choice([main] + [w[0] for w in where[i:]])
        rel = os.path.relpath(back, os.path.dirname(where[i][0]) or ".")
        ls = files[where[i][0]].split("\n")
        k = max(j for j, l in enumerate(ls) if l.startswith("pragma")) + 1
        files[where[i][0]] = "\n".join(ls[:k] + ['include "%s";' % said(where[i][0], rel)] + ls[k:])
    files[main] = prog.text(defs=maind, main=True, includes=incs)
    for i, g in enumerate(groups):
        path, libname, lib = where[i]
        # a later library with a file of the same name; and libraries shadowed by files beside the including file
        for l in libs:
            cand = os.path.join(l, libname or os.path.basename(path))
            later = lib is None or libs.index(l) > libs.index(lib)
            if later and cand not in files and os.path.normpath(cand) not in spelled and rng.random() < 0.7:
                files[cand] = decoy_text(prog, g)
                decoys.append(cand)
    mdec = os.path.join(rng.choice(libs), os.path.basename(main))
    if mdec not in files and rng.random() < 0.5:
        files[mdec] = decoy_text(prog, defs) + prog.text(defs=[], main=True).split("\n", 1)[1]
        decoys.append(mdec)
    flags = []
    for l in libs:
        flags += ["-l", l]
    sources = [main] + [w[0] for w in where]
    return files, main, flags, decoys, sources


def write(root, files):
    for p, t in files.items():
        q = os.path.join(root, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        if isinstance(t, tuple):
            os.symlink(t[1], q)
        else:
            with open(q, "w") as f:
                f.write(t)
