"""Instance generators (seeded) shared by the solver checks."""
import random


def prod(xs):
    p = 1
    for x in xs:
        p *= x
    return p


def strides(sz):
    s, p = [], 1
    for x in sz:
        s.append(p)
        p *= x
    return s


def coord(i, sz):
    out = []
    for x in sz:
        out.append(i % x)
        i //= x
    return out


def index(c, sz):
    return sum(a * b for a, b in zip(c, strides(sz)))


def axis_neighbours(i, sz):
    c, st = coord(i, sz), strides(sz)
    for k in range(len(sz)):
        if c[k] > 0:
            yield i - st[k]
        if c[k] < sz[k] - 1:
            yield i + st[k]


def random_cells(rng, n, density):
    return [1 if rng.random() < density else 0 for _ in range(n)]


def tree_cells(rng, sz):
    """A maze without loops: cells are opened while they touch exactly one open cell."""
    n = prod(sz)
    cells = [1] * n
    s = rng.randrange(n)
    cells[s] = 0
    front = list(axis_neighbours(s, sz))
    while front:
        i = front.pop(rng.randrange(len(front)) if rng.random() < 0.3 else -1)
        if cells[i] and sum(1 - cells[j] for j in axis_neighbours(i, sz)) == 1:
            cells[i] = 0
            ns = list(axis_neighbours(i, sz))
            rng.shuffle(ns)
            front += ns
    return cells


def component(cells, sz, s, nb=axis_neighbours):
    seen, st = {s}, [s]
    while st:
        u = st.pop()
        for v in nb(u, sz):
            if not cells[v] and v not in seen:
                seen.add(v)
                st.append(v)
    return seen


def pick_ends(rng, cells, sz, mode):
    op = [i for i, c in enumerate(cells) if not c]
    if mode == "any" or len(op) < 2:
        return rng.randrange(len(cells)), rng.randrange(len(cells))
    s = rng.choice(op)
    if mode == "open":
        return s, rng.choice(op)
    comp = sorted(component(cells, sz, s))
    if mode == "far":
        # farthest cell of the component
        d, q = {s: 0}, [s]
        for u in q:
            for v in axis_neighbours(u, sz):
                if not cells[v] and v not in d:
                    d[v] = d[u] + 1
                    q.append(v)
        return s, q[-1]
    return s, rng.choice(comp)


class Inst:
    def __init__(self, id, kind, sizes, cells, s, e, limit=1000000, hid=1, weight=1, edges=None, tags=(), cap=0):
        self.__dict__.update(cap=cap, id=id, kind=kind, sizes=list(sizes), cells=cells, s=s, e=e, limit=limit, hid=hid, weight=weight, edges=edges or [], tags=set(tags))

    def line(self, cfgs):
        k = len(self.sizes)
        body = "".join(map(str, self.cells)) if self.kind == "c" else (",".join("%d:%d:%d" % e for e in self.edges) or "-")
        return " ".join(map(str, [self.id, cfgs, self.kind, k, *self.sizes, *coord(self.s, self.sizes), *coord(self.e, self.sizes), body, self.limit, self.hid, self.weight] + ([self.cap] if self.cap else [])))

    def with_walls(self, walls):
        self.walls = walls
        return self

    def record(self):
        if "walls" in self.__dict__:
            return {"id": self.id, "kind": "h", "sizes": self.sizes, "n": prod(self.sizes), "walls": self.walls, "s": self.s, "e": self.e}
        return {"id": self.id, "kind": self.kind, "sizes": self.sizes, "n": prod(self.sizes),
                "blocked": [i for i, c in enumerate(self.cells) if c] if self.kind == "c" else [],
                "edges": [list(e) for e in self.edges], "s": self.s, "e": self.e}


SMALL2 = [(2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (4, 3), (3, 4), (4, 4), (5, 3), (1, 5), (6, 1), (5, 4), (2, 7)]
SMALL3 = [(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (3, 3, 2), (2, 3, 4), (1, 3, 4)]
SMALL4 = [(2, 2, 2, 2), (3, 2, 2, 2), (2, 3, 1, 2), (2, 2, 3, 2), (2, 1, 2, 3)]


def random_grid(rng, id, shapes, modes=("conn", "far", "open", "any"), hids=(1,), density=None, tags=()):
    sz = rng.choice(shapes)
    n = prod(sz)
    dens = rng.choice([0.0, 0.1, 0.2, 0.3, 0.4, 0.5]) if density is None else density
    cells = tree_cells(rng, sz) if rng.random() < 0.15 else random_cells(rng, n, dens)
    s, e = pick_ends(rng, cells, sz, rng.choice(modes))
    return Inst(id, "c", sz, cells, s, e, hid=rng.choice(hids), tags=tags)


def big_grid(rng, id, shapes, hids=(1,), tree=False, tags=("big",)):
    sz = rng.choice(shapes)
    cells = tree_cells(rng, sz) if tree else random_cells(rng, prod(sz), rng.choice([0.05, 0.2, 0.3]))
    s, e = pick_ends(rng, cells, sz, rng.choice(["far", "far", "conn"]))
    return Inst(id, "c", sz, cells, s, e, hid=rng.choice(hids), tags=set(tags) | ({"tree"} if tree else set()))


def random_graph(rng, id, k=2, nmax=14, unit=False, hid=None, wmax=9, tags=()):
    """Undirected graph over the cells of a k-dimensional box; with hid 1 every edge costs at least the manhattan
    distance of its ends, so that manhattan distance is a consistent heuristic."""
    hid = rng.choice([0, 1]) if hid is None else hid
    if k == 2:
        sz = (rng.randint(2, 4), rng.randint(2, 4))
    else:
        sz = (rng.randint(2, nmax),)
    n = prod(sz)
    edges = {}
    m = rng.randint(1, max(1, int(n * rng.choice([0.7, 1.2, 2, 3]))))
    for _ in range(m):
        u, v = rng.randrange(n), rng.randrange(n)
        if u == v:
            continue
        man = sum(abs(a - b) for a, b in zip(coord(u, sz), coord(v, sz)))
        w = 1 if unit else (man + rng.choice([0, 0, 0, 1, 3]) if hid else rng.randint(1, wmax))
        edges[(min(u, v), max(u, v))] = w
    es = [(u, v, w) for (u, v), w in edges.items()]
    rng.shuffle(es)
    es = [(v, u, w) if rng.random() < 0.5 else (u, v, w) for u, v, w in es]
    if unit:
        hid = 0
    nodes = sorted({x for e in es for x in e[:2]}) or [0, 0]
    s, e = rng.choice(nodes), rng.choice(nodes)
    if rng.random() < 0.05:
        e = rng.randrange(n)
    return Inst(id, "g", sz, [], s, e, hid=hid, edges=es, tags=tags)


SMALL5 = [(2, 2, 2, 2, 2), (3, 2, 1, 2, 2), (2, 1, 2, 3, 1), (1, 2, 2, 2, 2), (2, 2, 1, 1, 3)]


def serpentine(rng, id, w, h, tags=("big", "tree")):
    """One long corridor (first axis), folded."""
    cells = [0] * (w * h)
    for y in range(1, h, 2):
        for x in range(w):
            cells[y * w + x] = 1
        cells[y * w + (w - 1 if y // 2 % 2 == 0 else 0)] = 0
    last = h - 1 if h % 2 else h - 2
    e = last * w + (w - 1 if last // 2 % 2 == 0 else 0)
    s = 0
    if rng.random() < 0.5:
        s, e = e, s
    return Inst(id, "c", (w, h), cells, s, e, hid=rng.choice([0, 1]), tags=tags)


def hub_graph(rng, id, most=320):
    """A node with very many edges; every edge costs at least the manhattan distance of its ends in one dimension."""
    n = rng.randint(260, most)
    hub = rng.randrange(n)
    others = [v for v in range(n) if v != hub]
    far = rng.sample(others, 3)
    edges = [(hub, v, abs(hub - v) + rng.randint(0, 3)) for v in others if v not in far]
    for f in far:
        leaf = rng.choice([v for v in others if v not in far])
        edges.append((leaf, f, abs(leaf - f) + rng.randint(0, 9)))
    for _ in range(rng.choice([0, 5, 40])):
        u, v = rng.sample([v for v in others if v not in far], 2)
        edges.append((u, v, abs(u - v) + rng.randint(0, 2)))
    rng.shuffle(edges)
    s, e = rng.sample(far + [hub], 2)
    return Inst(id, "g", (n,), [], s, e, hid=rng.choice([0, 1]), edges=edges, tags=("hub",))


def halls(rng, id, sz, most=3, near=None, hids=(1,)):
    """A large box crossed by walls (spec/Halls.tla)."""
    n, w = prod(sz), sz[0]
    cells = [0] * n
    at = set()
    for _ in range(rng.randint(0, most) if w > 8 else 0):
        x = rng.randint(1, w - 2)
        if not any(y in at for y in range(x - 2, x + 3)):
            at.add(x)
    walls = []
    for x in sorted(at):
        door = x + w * rng.randrange(n // w)
        for c in range(x, n, w):
            cells[c] = 1
        if rng.random() < 0.85:
            cells[door] = 0
            walls.append({"at": x, "door": [door]})
        else:
            walls.append({"at": x, "door": []})
    op = [c for c in (range(n) if near is None else near) if c % w not in at]
    s, e = rng.choice([op[0], rng.choice(op)]), rng.choice([op[-1], rng.choice(op)])
    if rng.random() < 0.5:
        s, e = e, s
    return Inst(id, "c", sz, cells, s, e, hid=rng.choice(hids), tags=("big", "large"), limit=10 ** 9).with_walls(walls)
