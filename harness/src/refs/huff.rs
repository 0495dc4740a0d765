//! Reference model of the LZHUF adaptive Huffman code and of its position code.
use super::bits::{BitR, BitW};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Leaf(usize),
    /// left child is at this index, right child is at the next one
    Pair(usize),
}
#[derive(Clone, Copy)]
struct Node {
    f: u32,
    k: Kind,
}
/// Nodes in ascending order of frequency, the last one is the root.
pub struct Huff {
    nodes: Vec<Node>,
    parent: Vec<usize>,
    leaf: Vec<usize>,
    n: usize,
    pub rebuilds: usize,
    pub max_code: usize,
}
const MAX_FREQ: u32 = 0x8000;

impl Huff {
    pub fn new(n: usize) -> Self {
        let mut nodes: Vec<Node> = (0..n).map(|s| Node { f: 1, k: Kind::Leaf(s) }).collect();
        let mut i = 0;
        while nodes.len() < 2 * n - 1 {
            let f = nodes[i].f + nodes[i + 1].f;
            nodes.push(Node { f, k: Kind::Pair(i) });
            i += 2;
        }
        let mut h = Self { nodes, parent: vec![0; 2 * n - 1], leaf: vec![0; n], n, rebuilds: 0, max_code: 0 };
        h.link();
        h
    }
    fn link(&mut self) {
        for i in 0..self.nodes.len() {
            self.link1(i);
        }
    }
    fn link1(&mut self, i: usize) {
        match self.nodes[i].k {
            Kind::Leaf(s) => self.leaf[s] = i,
            Kind::Pair(c) => {
                self.parent[c] = i;
                self.parent[c + 1] = i;
            }
        }
    }
    fn root(&self) -> usize {
        2 * self.n - 2
    }
    fn rebuild(&mut self) {
        self.rebuilds += 1;
        let mut list: Vec<Node> = self
            .nodes
            .iter()
            .filter(|x| matches!(x.k, Kind::Leaf(_)))
            .map(|x| Node { f: (x.f + 1) / 2, k: x.k })
            .collect();
        let mut i = 0;
        while list.len() < 2 * self.n - 1 {
            let f = list[i].f + list[i + 1].f;
            // behind the last node that is not heavier
            let at = list.iter().rposition(|x| x.f <= f).unwrap() + 1;
            list.insert(at, Node { f, k: Kind::Pair(i) });
            i += 2;
        }
        self.nodes = list;
        self.link();
    }
    pub fn update(&mut self, sym: usize) {
        if self.nodes[self.root()].f == MAX_FREQ {
            self.rebuild();
        }
        let mut c = self.leaf[sym];
        loop {
            let f = self.nodes[c].f + 1;
            self.nodes[c].f = f;
            // last node lighter than this one
            let mut l = c;
            while l < self.root() && self.nodes[l + 1].f < f {
                l += 1;
            }
            if l != c {
                self.nodes.swap(c, l);
                self.link1(c);
                self.link1(l);
                c = l;
            }
            if c == self.root() {
                break;
            }
            c = self.parent[c];
        }
    }
    /// code of a symbol, first bit is the one next to the root
    pub fn code(&self, sym: usize) -> Vec<bool> {
        let mut v = Vec::new();
        let mut c = self.leaf[sym];
        while c != self.root() {
            let p = self.parent[c];
            match self.nodes[p].k {
                Kind::Pair(l) => v.push(c != l),
                _ => unreachable!(),
            }
            c = p;
        }
        v.reverse();
        v
    }
    pub fn encode(&mut self, sym: usize, w: &mut BitW) {
        let code = self.code(sym);
        self.max_code = self.max_code.max(code.len());
        for b in code {
            w.bit(b);
        }
        self.update(sym);
    }
    pub fn decode(&mut self, r: &mut BitR) -> Option<usize> {
        let mut c = self.root();
        let mut len = 0;
        loop {
            match self.nodes[c].k {
                Kind::Leaf(s) => {
                    self.max_code = self.max_code.max(len);
                    self.update(s);
                    return Some(s);
                }
                Kind::Pair(l) => {
                    c = l + r.bit()? as usize;
                    len += 1;
                }
            }
        }
    }
}

/// (length,code) of the upper 6 bits of the position: a canonical prefix code with
/// 1, 3, 8, 12, 24, 16 codes of 3, 4, 5, 6, 7, 8 bits.
pub fn pos_code(upper: usize) -> (usize, u64) {
    let counts = [(3usize, 1usize), (4, 3), (5, 8), (6, 12), (7, 24), (8, 16)];
    let mut code: u64 = 0;
    let mut idx = 0;
    let mut prev_len = 3;
    for (len, n) in counts {
        code <<= len - prev_len;
        prev_len = len;
        for _ in 0..n {
            if idx == upper {
                return (len, code);
            }
            idx += 1;
            code += 1;
        }
    }
    panic!("position out of range")
}
pub fn put_pos(pos: usize, w: &mut BitW) {
    let (l, c) = pos_code(pos >> 6);
    w.num(c, l);
    w.num(pos as u64 & 63, 6);
}
thread_local! {
    static PCODES: Vec<(usize,u64)> = (0..64).map(pos_code).collect();
}
pub fn get_pos(r: &mut BitR) -> Option<usize> {
    let mut code = 0u64;
    let mut len = 0;
    loop {
        code = code << 1 | r.bit()? as u64;
        len += 1;
        let hit = PCODES.with(|p| p.iter().position(|x| *x == (len, code)));
        if let Some(upper) = hit {
            return Some(upper << 6 | r.num(6)? as usize);
        }
        assert!(len < 9);
    }
}
