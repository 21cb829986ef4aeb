//! The reference model: an arena tree with explicit slots, and the specification of every
//! traversal written directly from the documentation (not from the library's algorithms).
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct MNode {
    pub id: u64,
    /// generic trees: every slot is `Some`; binary trees: exactly two slots.
    pub slots: Vec<Option<usize>>,
    pub parent: Option<usize>,
    pub path: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub binary: bool,
    pub nodes: Vec<MNode>, // index 0 is the root
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Order {
    Bfs,
    Pre,
    In,
    Post,
}
pub const GEN_ORDERS: [Order; 3] = [Order::Bfs, Order::Pre, Order::Post];
pub const BIN_ORDERS: [Order; 4] = [Order::Bfs, Order::Pre, Order::In, Order::Post];

impl Model {
    pub fn single(binary: bool) -> Model {
        Model {
            binary,
            nodes: vec![MNode { id: 1, slots: if binary { vec![None, None] } else { vec![] }, parent: None, path: vec![] }],
        }
    }
    pub fn len(&self) -> usize {
        self.nodes.len()
    }
    /// append a child to a generic node
    pub fn add(&mut self, p: usize) -> usize {
        let i = self.nodes.len();
        self.nodes[p].slots.push(Some(i));
        self.nodes.push(MNode { id: i as u64 + 1, slots: vec![], parent: Some(p), path: vec![] });
        i
    }
    pub fn add_bin(&mut self, p: usize, side: usize) -> usize {
        let i = self.nodes.len();
        assert!(self.nodes[p].slots[side].is_none());
        self.nodes[p].slots[side] = Some(i);
        self.nodes.push(MNode { id: i as u64 + 1, slots: vec![None, None], parent: Some(p), path: vec![] });
        i
    }
    /// recompute paths and give every node an id unique to (base, index)
    pub fn finish(mut self, base: u64) -> Model {
        let order = self.preorder();
        for &i in &order {
            self.nodes[i].id = base + i as u64 + 1;
            if let Some(p) = self.nodes[i].parent {
                let seg = self.nodes[p].slots.iter().position(|s| *s == Some(i)).unwrap();
                let mut path = self.nodes[p].path.clone();
                path.push(seg);
                self.nodes[i].path = path;
            }
        }
        self
    }
    pub fn kids(&self, i: usize) -> Vec<usize> {
        self.nodes[i].slots.iter().filter_map(|s| *s).collect()
    }
    pub fn is_leaf(&self, i: usize) -> bool {
        self.nodes[i].slots.iter().all(|s| s.is_none())
    }
    pub fn depth(&self, i: usize) -> usize {
        self.nodes[i].path.len()
    }
    pub fn height(&self) -> usize {
        (0..self.len()).map(|i| self.depth(i)).max().unwrap()
    }
    pub fn preorder(&self) -> Vec<usize> {
        let mut out = vec![];
        let mut st = vec![0];
        while let Some(i) = st.pop() {
            out.push(i);
            let k = self.kids(i);
            st.extend(k.into_iter().rev());
        }
        out
    }
    pub fn order(&self, o: Order) -> Vec<usize> {
        match o {
            Order::Pre => self.preorder(),
            Order::Bfs => {
                let mut level = vec![0usize];
                let mut out = vec![];
                while !level.is_empty() {
                    out.extend(level.iter().copied());
                    level = level.iter().flat_map(|i| self.kids(*i)).collect();
                }
                out
            }
            Order::Post => {
                // postorder = reverse of "node, then children right to left"
                let mut out = vec![];
                let mut st = vec![0];
                while let Some(i) = st.pop() {
                    out.push(i);
                    st.extend(self.kids(i));
                }
                out.reverse();
                out
            }
            Order::In => {
                assert!(self.binary);
                let mut out = vec![];
                let mut st: Vec<(usize, bool)> = vec![(0, false)];
                while let Some((i, done)) = st.pop() {
                    if done {
                        out.push(i);
                    } else {
                        if let Some(r) = self.nodes[i].slots[1] {
                            st.push((r, false));
                        }
                        st.push((i, true));
                        if let Some(l) = self.nodes[i].slots[0] {
                            st.push((l, false));
                        }
                    }
                }
                out
            }
        }
    }
    /// ids from the root down to and including i
    pub fn ancestors(&self, i: usize) -> Vec<u64> {
        let mut v = vec![];
        let mut c = Some(i);
        while let Some(x) = c {
            v.push(self.nodes[x].id);
            c = self.nodes[x].parent;
        }
        v.reverse();
        v
    }
    pub fn kid_ids(&self, i: usize) -> Vec<Option<u64>> {
        self.nodes[i].slots.iter().map(|s| s.map(|k| self.nodes[k].id)).collect()
    }
    pub fn ids(&self, v: &[usize]) -> Vec<u64> {
        v.iter().map(|i| self.nodes[*i].id).collect()
    }
    pub fn at_path(&self, path: &[usize]) -> Option<usize> {
        let mut c = 0;
        for s in path {
            c = (*self.nodes[c].slots.get(*s)?)?;
        }
        Some(c)
    }
    /// s-expression of the shape, for reports
    pub fn show(&self) -> String {
        enum W {
            N(usize),
            S(&'static str),
        }
        let mut s = String::new();
        let mut st = vec![W::N(0)];
        while let Some(w) = st.pop() {
            match w {
                W::S(x) => s.push_str(x),
                W::N(i) => {
                    s.push_str(&self.nodes[i].id.to_string());
                    if self.is_leaf(i) {
                        continue;
                    }
                    s.push('(');
                    st.push(W::S(")"));
                    for k in self.nodes[i].slots.iter().rev() {
                        match k {
                            None => st.push(W::S("_")),
                            Some(k) => {
                                st.push(W::S(" "));
                                st.push(W::N(*k))
                            }
                        }
                    }
                }
            }
            if s.len() > 4000 {
                s.push_str("...");
                break;
            }
        }
        s
    }
    pub fn shape_key(&self) -> u64 {
        // hash of the preorder slot structure only
        let mut h: u64 = if self.binary { 7 } else { 3 };
        let mut mix = |x: u64| h = (h ^ x).wrapping_mul(0x100000001b3).rotate_left(5);
        for i in self.preorder() {
            mix(self.nodes[i].slots.len() as u64 + 17);
            for s in &self.nodes[i].slots {
                mix(s.is_some() as u64 + 1);
            }
        }
        h
    }
}

// ---------------------------------------------------------------- exhaustive small shapes

/// all ordered (generic) trees with exactly n nodes
pub fn all_generic(n: usize) -> Vec<Model> {
    // forests(n) -> list of forests, each forest = list of nested trees
    #[derive(Clone)]
    struct T(Vec<T>);
    fn forests(n: usize, memo: &mut Vec<Option<Vec<Vec<T>>>>) -> Vec<Vec<T>> {
        if let Some(Some(v)) = memo.get(n) {
            return v.clone();
        }
        let mut out = vec![];
        if n == 0 {
            out.push(vec![]);
        } else {
            for k in 1..=n {
                // first tree has k nodes
                let firsts = forests(k - 1, memo);
                let rests = forests(n - k, memo);
                for f in &firsts {
                    for r in &rests {
                        let mut v = vec![T(f.clone())];
                        v.extend(r.iter().cloned());
                        out.push(v);
                    }
                }
            }
        }
        if memo.len() <= n {
            memo.resize(n + 1, None);
        }
        memo[n] = Some(out.clone());
        out
    }
    fn put(m: &mut Model, at: usize, t: &T) {
        for c in &t.0 {
            let i = m.add(at);
            put(m, i, c);
        }
    }
    let mut memo = vec![];
    forests(n - 1, &mut memo)
        .into_iter()
        .map(|f| {
            let mut m = Model::single(false);
            put(&mut m, 0, &T(f));
            m.finish(0)
        })
        .collect()
}

/// all binary trees with exactly n nodes
pub fn all_binary(n: usize) -> Vec<Model> {
    #[derive(Clone)]
    struct B(Option<Box<(B, B)>>);
    fn gen(n: usize, memo: &mut Vec<Option<Vec<B>>>) -> Vec<B> {
        if let Some(Some(v)) = memo.get(n) {
            return v.clone();
        }
        let mut out = vec![];
        if n == 0 {
            out.push(B(None));
        } else {
            for l in 0..n {
                let ls = gen(l, memo);
                let rs = gen(n - 1 - l, memo);
                for a in &ls {
                    for b in &rs {
                        out.push(B(Some(Box::new((a.clone(), b.clone())))));
                    }
                }
            }
        }
        if memo.len() <= n {
            memo.resize(n + 1, None);
        }
        memo[n] = Some(out.clone());
        out
    }
    fn put(m: &mut Model, at: usize, b: &B) {
        if let Some(x) = &b.0 {
            if x.0 .0.is_some() {
                let i = m.add_bin(at, 0);
                put(m, i, &x.0);
            }
            if x.1 .0.is_some() {
                let i = m.add_bin(at, 1);
                put(m, i, &x.1);
            }
        }
    }
    let mut memo = vec![];
    gen(n, &mut memo)
        .into_iter()
        .map(|b| {
            let mut m = Model::single(true);
            put(&mut m, 0, &b);
            m.finish(0)
        })
        .collect()
}

pub fn all_small(binary: bool, max: usize) -> Vec<Model> {
    (1..=max).flat_map(|n| if binary { all_binary(n) } else { all_generic(n) }).collect()
}

// ---------------------------------------------------------------- random shapes

pub fn random(rng: &mut Rng, binary: bool, max: usize) -> Model {
    let n = match rng.below(6) {
        0 => rng.range(1, 3.min(max)),
        1 | 2 => rng.range(1, (max / 3).max(1)),
        _ => rng.range(1, max),
    };
    sized(rng, binary, n).finish(0)
}

/// exactly n nodes, one of many shape families; not finished
pub fn sized(rng: &mut Rng, binary: bool, n: usize) -> Model {
    let mut m = Model::single(binary);
    if binary {
        // list of free (node, side)
        let mut free: Vec<(usize, usize)> = vec![(0, 0), (0, 1)];
        let kind = rng.below(9);
        let mut alt = 0;
        while m.len() < n {
            let last = m.len() - 1;
            let (p, s) = match kind {
                0 => free[rng.below(free.len())],
                1 => (last, 0),                          // left path
                2 => (last, 1),                          // right path
                3 => {
                    alt ^= 1;
                    (last, alt)
                } // zig-zag
                4 => free[0],                            // complete, breadth first
                5 => {
                    let w = free.len().min(3);
                    free[free.len() - 1 - rng.below(w)]
                } // deep
                6 => {
                    let w = free.len().min(4);
                    free[rng.below(w)]
                } // bushy
                7 => (last, rng.below(2)),               // random path
                _ => {
                    // caterpillar: mostly extend the last internal node, sometimes hang a leaf
                    if rng.chance(1, 2) {
                        *free.last().unwrap()
                    } else {
                        free[rng.below(free.len())]
                    }
                }
            };
            let pos = free.iter().position(|f| *f == (p, s));
            let (p, s) = match pos {
                Some(x) => free.remove(x),
                None => free.remove(rng.below(free.len())),
            };
            let i = m.add_bin(p, s);
            free.push((i, 0));
            free.push((i, 1));
        }
    } else {
        let kind = rng.below(10);
        let fan = rng.range(1, 5);
        while m.len() < n {
            let len = m.len();
            let p = match kind {
                0 => rng.below(len),                         // uniform recursive
                1 => len - 1,                                // path
                2 => 0,                                      // star
                3 => {
                    if m.nodes[len - 1].parent.is_none() || rng.chance(1, 2) {
                        len - 1
                    } else {
                        m.nodes[len - 1].parent.unwrap()
                    }
                } // caterpillar-ish
                4 => (len - 1) / fan,                        // complete fan-ary
                5 => len - 1 - rng.below(len.min(3)),        // deep
                6 => rng.below(len.min(4)),                  // shallow & wide
                7 => {
                    if len <= n / 2 {
                        len - 1
                    } else {
                        n / 2
                    }
                } // broom
                8 => {
                    // several long legs from the root
                    if m.nodes[0].slots.len() < fan {
                        0
                    } else {
                        len - fan
                    }
                }
                _ => {
                    if rng.chance(1, 3) {
                        rng.below(len)
                    } else {
                        len - 1
                    }
                }
            };
            m.add(p);
        }
        // shuffle sibling order so that insertion order and sibling order differ
        if rng.chance(1, 2) {
            for i in 0..m.len() {
                let l = m.nodes[i].slots.len();
                for j in (1..l).rev() {
                    let k = rng.below(j + 1);
                    m.nodes[i].slots.swap(j, k);
                }
            }
        }
    }
    m
}
