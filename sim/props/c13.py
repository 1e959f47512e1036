"""C13: program trees stay complete, well-typed and executable."""
import copy

from .. import gen as G

TIERS = {"quick": {"runs": 2400}, "thorough": {"runs": 50000}}
RULE = ("Each seed draws tree sets (untyped, typed, with and without "
        "constants), creators, and either a whole evolution or one or two "
        "interleaved histories of direct creations, crossovers, mutations and "
        "clones, with extreme random draws; every tree is checked after every "
        "step against an independent type checker and interpreter, every "
        "operator against what it may exchange.")
OWN_SHRINKS = True


def hist(rng):
    c = G.cfg(rng, encs=("tree",))
    k = rng.random()
    if k < 0.12:
        # a type that only terminals have: subtree mutation can fail half way
        c.update(typed=True, fset="gap", root="float", consts=False,
                 erc=rng.choice([None, [-1.0, 1.0]]), depth=[1, 1])
        if c["creator"] == "half":
            c["creator"] = "grow"
    elif k < 0.2:
        # no exchangeable inner node may exist at all
        c.update(depth=rng.choice([[0, 1], [1, 1]]))
        if c["creator"] == "half":
            c["creator"] = "grow"
    c["pop"] = rng.randrange(2, 7)
    if c["creator"] == "half":
        c["pop"] = 2 * (c["depth"][1] + 1 - c["depth"][0]) + rng.randrange(3)
    n = c["pop"]
    steps = []
    for _ in range(rng.randrange(1, 25)):
        r = rng.random()
        if r < 0.4:
            a = 2 if rng.random() < 0.8 or n < 3 else 3
            steps.append({"s": "sxo", "who": rng.sample(range(n), a),
                          "attempts": rng.choice([1, 1, 2, 4])})
        elif r < 0.7:
            d = rng.choice([[0, 2], [1, 2], [2, 4], [1, 1], [0, 1], [0, 0],
                            [2, 3]])
            steps.append({"s": "smut", "who": [rng.randrange(n)], "depth": d,
                          "attempts": rng.choice([1, 1, 2, 4])})
        elif r < 0.82:
            a = 1 if rng.random() < 0.7 else 2
            steps.append({"s": "erc", "who": rng.sample(range(n), a),
                          "sigma": rng.choice([1, 0, 1000.0])})
        elif r < 0.86:
            steps.append({"s": "clone", "who": rng.sample(range(n), 2)})
        elif r < 0.9:
            steps.append({"s": "new"})
        elif r < 0.96:
            steps.append({"s": "api", "who": rng.sample(range(n), 2),
                          "do": rng.choice(["build", "graft", "graft",
                                            "query"]),
                          "wrong": rng.randrange(100)})
        else:
            steps.append({"s": "array", "who": [rng.randrange(n)],
                          "rows": rng.randrange(1, 5)})
    return {"cfg": c, "steps": steps, "reuse": G.coin(rng)}


def gen(rng, tier, i):
    if rng.random() < 0.3:
        c = G.sk_cfg(rng) if rng.random() < 0.25 else \
            G.cfg(rng, encs=("tree",))
        c["gens"] = max(1, c["gens"])
        for o in c["ops"]:
            o["p"] = rng.choice([0.5, 1.0])
        return {"parts": [G.part(rng, {"mode": "run", "cfg": c}, extreme=0.5,
                                 faults=G.env_faults(rng, c))]}
    do = {"mode": "hist", "h": [hist(rng)
                                for _ in range(rng.choice([1, 1, 1, 2]))]}
    return {"parts": [G.part(rng, do, threads=len(do["h"]) > 1,
                             extreme=0.6)]}


def run(part, sim):
    do = part["do"]
    if do["mode"] == "run":
        return run_evo(do["cfg"], sim)
    hs = do["h"]
    if len(hs) == 1:
        return run_hist(hs[0], sim, "")
    ts = [sim.sched.spawn(lambda h=h, j=j: run_hist(h, sim, "user %d: " % j),
                          "user%d" % j) for j, h in enumerate(hs)]
    for t in ts:
        sim.sched.join(t)
        if t.exc is not None:
            raise t.exc


def run_evo(cfg, sim):
    from .. import world as W
    algo = W.build(cfg, "A", sim)
    m = W.Monitor("A", cfg, sim).attach(algo)
    st = {"n": 0, "new": True}

    def look(where):
        def f(sender, data):
            for ind in W.subpop(algo).individuals:
                if not W.check_tree(sim, cfg, ind, "%s, generation %d" % (
                        where, st["n"])):
                    return
                sim.count("trees")
        return f

    def first(sender, data):
        if st["new"]:
            st["new"] = False
            check_created(sim, cfg, W.subpop(algo).individuals,
                          "initial population")
        look("before evaluation")(sender, data)

    def on_gen(sender, data):
        st["n"] += 1
        sim.log([W.crc(W.genome(i)) for i in W.subpop(algo).individuals])
    m.hooks.update({"eval<": first, "breed>": look("after breeding"),
                    "eval>": look("after evaluation"), "gen": on_gen})
    W.start(sim, algo, cfg)


def leaf_depths(tree):
    from .. import world as W
    end = W.tree_spans(tree)
    out = []

    def walk(i, d):
        if not isinstance(tree[i], W.FunctionNode):
            out.append(d)
            return
        j = i + 1
        for _ in range(tree[i].n_args):
            walk(j, d + 1)
            j = end[j]
    walk(0, 0)
    return out


def check_created(sim, cfg, inds, where):
    """Depth limits of the creators."""
    from .. import world as W
    lo, hi = cfg["depth"]
    n = len(inds)
    depths = []
    for ind in inds:
        if not W.check_tree(sim, cfg, ind, where):
            return
        ld = leaf_depths(ind.tree)
        depths.append(max(ld))
        if ind.depth() != max(ld) or ind.size() != len(ind.tree):
            sim.fail("depth", "%s: %s says its depth is %d and its size %d" % (
                where, ind.tree, ind.depth(), ind.size()))
        if cfg["creator"] == "full" and set(ld) != {hi} and \
                cfg.get("creators", 1) == 1:
            sim.fail("depth", "%s: the full method made %s with leaves at "
                     "depths %s, maximum %d" % (where, ind.tree,
                                                sorted(set(ld)), hi))
        elif max(ld) > hi or min(ld) < lo:
            sim.fail("depth", "%s: %s has leaves at depths %s, limits %s" % (
                where, ind.tree, sorted(set(ld)), [lo, hi]))
    if cfg["creator"] == "half":
        group = n // (2 * (hi + 1 - lo))
        for d in range(lo, hi + 1):
            full = 0
            for ind in inds:
                if set(leaf_depths(ind.tree)) == {d}:
                    full += 1
            if full < group:
                sim.fail("depth", "%s: %d full trees of depth %d, ramped half "
                         "and half of %d trees over %s gives %d" % (
                             where, full, d, n, [lo, hi], group))


def check_printed(sim, cfg, ind, where):
    """The size, the depth and the printed form are those of the program."""
    from .. import world as W
    deep = max(leaf_depths(ind.tree))
    if ind.depth() != deep or ind.size() != len(ind.tree):
        sim.fail("depth", "%s: %s says its depth is %d and its size %d" % (
            where, ind.tree, ind.depth(), ind.size()))
        return
    if cfg.get("clos"):
        return      # several functions share a name
    fs, ts = W.tree_sets(cfg)
    names = {f.__name__: f for f in fs}
    text = str(ind)
    env = W.tree_inputs(cfg)
    was = set(names)
    try:
        exec(text, names)
        f, = [v for n, v in names.items()
              if n not in was and n != "__builtins__"]
        got = f(**env)
    except Exception as e:
        sim.fail("printed", "%s: %s is printed as %r, which fails with %r" % (
            where, ind.tree, text, e))
        return
    if not W.equalish(got, W.interp(ind, env)):
        sim.fail("printed", "%s: %s is printed as %r, which is another "
                 "program" % (where, ind.tree, text))
    sim.count("printed")


def crossed(a, b, ea, eb, a2, b2):
    """(a2, b2) follow from (a, b) by exchanging one subtree of each."""
    for i in range(len(a)):
        if a2[:i] != a[:i]:
            break
        ie = ea[i]
        for j in range(len(b)):
            je = eb[j]
            if len(a) - (ie - i) + (je - j) == len(a2) and \
                    a2 == a[:i] + b[j:je] + a[ie:] and \
                    b2 == b[:j] + a[i:ie] + b[je:]:
                return True
    return False


def received(t, e, donor, ed, t2):
    """t2 is t with one subtree replaced by one of the donor's subtrees."""
    for i in range(len(t)):
        if t2[:i] != t[:i]:
            break
        tail = len(t) - e[i]
        new = t2[i:len(t2) - tail]
        if t2[len(t2) - tail:] != t[e[i]:]:
            continue
        for j in range(len(donor)):
            if donor[j:ed[j]] == new:
                return True
    return False


def refuses(tree, node):
    """A node that does not belong at the end of the tree is not added."""
    n = len(tree.tree)
    try:
        tree.add_tree(node)
    except ValueError:
        return len(tree.tree) == n
    return False


def by_hand(st, a, b, cfg, sim, where):
    """A user's own creator or operator, written with the methods of trees."""
    import copy as cp
    from .. import world as W
    fs, ts = W.tree_sets(cfg)
    if st["do"] == "build":
        nodes = [cp.copy(nd) for nd in a.tree]
        b.empty_tree()
        if b.size():
            sim.fail("api", "%s: an emptied tree has %d nodes" % (
                where, b.size()))
        for j, nd in enumerate(nodes):
            if cfg["typed"] and j and j == st["wrong"] % len(nodes):
                for t in (int, float, bool, str, None):
                    if t is not nd.node_type and not refuses(
                            b, W.TerminalNode("x0", node_type=t)):
                        sim.fail("api", "%s: a terminal of type %s was added "
                                 "to %s, which needs %s next" % (
                                     where, t, nodes[:j], nd.node_type))
                        return
            try:
                b.add_tree(nd)
            except ValueError as e:
                sim.fail("api", "%s: adding the nodes of %s one by one: %s" % (
                    where, nodes, e))
                return
        if b.tree != nodes:
            sim.fail("api", "%s: built %s of the nodes %s" % (where, b.tree,
                                                              nodes))
        if not refuses(b, cp.copy(nodes[-1])):
            sim.fail("api", "%s: a node was added to the complete tree %s" % (
                where, nodes))
    elif st["do"] == "graft":
        sub = a.random_subtree()
        if sub is None:
            if not cfg["typed"] or len(a.tree) > 1:
                sim.fail("api", "%s: no subtree of %s" % (where, a.tree))
            return
        at = [j for j in range(len(a.tree)) if a.tree[j] is sub[0]]
        end = W.tree_spans(a.tree)
        if not at or not any(len(sub) == end[j] - j and all(
                x is y for x, y in zip(sub, a.tree[j:])) for j in at):
            sim.fail("api", "%s: %s is no subtree of %s" % (where, sub,
                                                           a.tree))
            return
        t = sub[0].node_type
        part = b.random_subtree(t)
        if part is None:
            if any(nd.node_type is t for nd in b.tree[1:]):
                sim.fail("api", "%s: no subtree of type %s of %s" % (
                    where, t, b.tree))
            return
        if part[0].node_type is not t:
            sim.fail("api", "%s: asked for a subtree of type %s, got %s" % (
                where, t, part))
            return
        old = list(b.tree)
        end = W.tree_spans(old)
        part = list(part)
        new = [cp.copy(nd) for nd in sub]
        b.replace_subtree(part, new)
        if not any(len(part) == end[j] - j and
                   all(x is y for x, y in zip(part, old[j:])) and
                   len(b.tree) == len(old) - len(part) + len(new) and
                   all(x is y for x, y in zip(
                       b.tree, old[:j] + new + old[end[j]:]))
                   for j in range(len(old))):
            sim.fail("api", "%s: replacing %s by %s in %s gave %s" % (
                where, part, new, old, b.tree))
    else:
        leaves = [nd for nd in a.tree if isinstance(nd, W.TerminalNode)]
        got = a.filter_tree(lambda nd: isinstance(nd, W.TerminalNode))
        if len(got) != len(leaves) or any(
                x is not y for x, y in zip(got, leaves)):
            sim.fail("api", "%s: leaves of %s: %s" % (where, a.tree, got))
        if a.root is not a.tree[0] or a.size() != len(a.tree) or \
                a.depth() != max(leaf_depths(a.tree)):
            sim.fail("api", "%s: %s: root %s, size %d, depth %d" % (
                where, a.tree, a.root, a.size(), a.depth()))
        nums = [nd for nd in leaves if isinstance(nd.value, (int, float)) and
                not isinstance(nd.value, bool)]
        nd = a.get_random_numeric_node()
        if (nd is None) != (not nums) or (nums and not any(
                nd is x for x in nums)):
            sim.fail("api", "%s: numeric leaf %s of %s" % (where, nd, a.tree))
        t = a.tree[st["wrong"] % len(a.tree)].node_type
        f, x = a.random_function(t), a.random_terminal(t)
        if (f is None) == any((W.hints(g)[1] if cfg["typed"] else None) is t
                              for g in fs) or \
                f is not None and (f.node_type is not t or
                                   f.function not in fs):
            sim.fail("api", "%s: random function of type %s: %s" % (
                where, t, f))
        if x is not None and (x.node_type is not t or isinstance(
                x.value, str) and x.value not in ts):
            sim.fail("api", "%s: random terminal of type %s: %s" % (
                where, t, x))


def run_hist(h, sim, who):
    from .. import world as W
    from eckity.genetic_operators import (ERCMutation, SubtreeCrossover,
                                          SubtreeMutation)
    cfg = h["cfg"]
    gap = cfg.get("fset") == "gap"
    creator = W.make_creator(cfg)
    inds = creator.create_individuals(cfg["pop"], cfg["hib"])
    if len(inds) != cfg["pop"]:
        sim.fail("count", "%d trees created, %d asked for" % (
            len(inds), cfg["pop"]))
        return
    check_created(sim, cfg, inds, who + "created")
    ops = {}

    def op(key, make):
        if not h["reuse"] or key not in ops:
            ops[key] = make()
        return ops[key]

    for n, st in enumerate(h["steps"]):
        if sim.violations:
            return
        k = st["s"]
        where = "%sstep %d (%s)" % (who, n, k)
        sim.count("op_" + k)
        if k == "new":
            inds = creator.create_individuals(cfg["pop"], cfg["hib"])
            check_created(sim, cfg, inds, where)
            continue
        sel = [inds[j] for j in st["who"]]
        old = [list(W.genome(i)) for i in sel]
        ends = [W.tree_spans(i.tree) for i in sel]
        rest = [(i, W.genome(i)) for i in inds if all(i is not s for s in sel)]
        sim.point()
        if k == "clone":
            inds[st["who"][1]] = sel[0].clone()
            if list(W.genome(inds[st["who"][1]])) != old[0]:
                sim.fail("clone", "%s: the clone differs" % where)
            continue
        if k == "api":
            by_hand(st, sel[0], sel[1], cfg, sim, where)
            if sim.violations:
                return
            for i in sel:
                if not W.check_tree(sim, cfg, i, where):
                    return
            for i, g in rest:
                if W.genome(i) != g:
                    sim.fail("bystander", "%s changed a tree it was not "
                             "applied to" % where)
            sim.log(n, k, [W.crc(W.genome(i)) for i in sel])
            continue
        if k == "array":
            if cfg["typed"]:
                continue
            import numpy as np
            X = np.array([[0.5 * r - 0.25 * c for c in range(cfg["nvars"])]
                          for r in range(st["rows"])])
            want = np.asarray(W.interp(sel[0], {
                "x%d" % c: X[:, c] for c in range(cfg["nvars"])}))
            if want.shape == ():
                want = np.full(len(X), want)
            got = sel[0].execute(X)
            if not W.equalish(got, want):
                sim.fail("tree-exec", "%s: %s on %s gives %r, the expression "
                         "has %r" % (where, sel[0].tree, X.tolist(), got,
                                     want))
            continue
        if k == "sxo":
            o = op(("sxo", len(sel), st["attempts"]),
                   lambda: SubtreeCrossover(arity=len(sel),
                                            attempts=st["attempts"]))
        elif k == "smut":
            o = op(("smut", tuple(st["depth"]), st["attempts"]),
                   lambda: SubtreeMutation(init_depth=tuple(st["depth"]),
                                           attempts=st["attempts"]))
        else:
            o = op(("erc", len(sel), st["sigma"]),
                   lambda: ERCMutation(arity=len(sel), sigma=st["sigma"]))
        raised = None
        try:
            res = o.apply_operator(list(sel))
        except ValueError as e:
            raised = e
            if not (gap and k == "smut"):
                sim.fail("raised", "%s raised %r on %s" % (where, e, old))
                return
            sim.count("operator_failed")
        new = [list(W.genome(i)) for i in sel]
        if raised is None and (len(res) != len(sel) or any(
                x is not y for x, y in zip(res, sel))):
            sim.fail("result", "%s does not return its operands" % where)
            return
        for i, g in rest:
            if W.genome(i) != g:
                sim.fail("bystander", "%s changed a tree it was not applied to"
                         % where)
                return
        for i in sel:
            if not W.check_tree(sim, cfg, i, where):
                return
        if raised is not None:
            if new != old:
                sim.fail("failed-op", "%s failed and left %s of %s" % (
                    where, new, old))
            continue
        if new == old:
            sim.count("unchanged")
            continue
        if k == "sxo":
            if len(sel) == 2:
                ok = crossed(old[0], old[1], ends[0], ends[1], *new)
            else:
                ok = all(received(old[j], ends[j], old[j - 1], ends[j - 1],
                                  new[j]) for j in range(len(sel)))
                ok = ok and sorted(sum(old, [])) == sorted(sum(new, [])) \
                    if ok and not _none(old) else ok
            if not ok:
                sim.fail("crossover", "%s: %s became %s, which is no exchange "
                         "of one subtree" % (where, show(old), show(new)))
        elif k == "smut":
            t, e, t2 = old[0], ends[0], new[0]
            ok = False
            lo, hi = st["depth"]
            tr = sel[0].tree
            for i in range(len(t)):
                if t2[:i] != t[:i]:
                    break
                tail = len(t) - e[i]
                if i + tail >= len(t2) or t2[len(t2) - tail:] != t[e[i]:]:
                    continue
                part = tr[i:len(tr) - tail]
                if W.tree_spans(part) is None:
                    continue
                ld = leaf_depths(part)
                if lo <= min(ld) and max(ld) <= hi:
                    ok = True
                    break
            if not ok:
                sim.fail("mutation", "%s: %s became %s, which does not replace "
                         "one subtree by one of depth %s" % (
                             where, show(old), show(new), st["depth"]))
        else:
            for a, b, i in zip(old, new, sel):
                diff = [j for j in range(len(a)) if a[j] != b[j]] \
                    if len(a) == len(b) else None
                if diff is None or len(diff) > 1:
                    sim.fail("erc", "%s: %s became %s" % (where, a, b))
                elif diff:
                    v = i.tree[diff[0]]
                    if a[diff[0]][0] != "T" or not numeric(a[diff[0]][1]):
                        sim.fail("erc", "%s changed %s, no constant" % (
                            where, a[diff[0]]))
                    if a[diff[0]][2] != b[diff[0]][2]:
                        sim.fail("erc", "%s changed the type of %s" % (
                            where, v))
        if n % 4 == 0:
            for i in sel:
                check_printed(sim, cfg, i, where)
        sim.log(n, k, [W.crc(tuple(g)) for g in new])
    for i in inds:
        if not W.check_tree(sim, cfg, i, who + "at the end"):
            return
        check_printed(sim, cfg, i, who + "at the end")


def _none(old):
    return any(x[2] is None for g in old for x in g)


def numeric(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def show(gs):
    return " | ".join(" ".join(x[1] for x in g) for g in gs)


def shrinks(scn):
    do = scn["parts"][0]["do"]
    if do["mode"] == "run":
        for key, val in G._smaller(do["cfg"]):
            c = copy.deepcopy(scn)
            c["parts"][0]["do"]["cfg"][key] = val
            yield c
        return
    hs = do["h"]
    for j, h in enumerate(hs):
        if len(hs) > 1:
            c = copy.deepcopy(scn)
            del c["parts"][0]["do"]["h"][j]
            yield c
        k = len(h["steps"])
        size = k // 2
        while size:
            for a in range(0, k, size):
                c = copy.deepcopy(scn)
                del c["parts"][0]["do"]["h"][j]["steps"][a:a + size]
                yield c
            size //= 2
