//! Independent decoder and encoder for the documented stored format (written from the crate docs).
use crate::ctx::{hex, R};
use crate::gen::Model;
use crate::rng::Rng;
use crate::{ensure, fail};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Root,
    Prefix,
    Value,
    Children,
}

#[derive(Clone, Debug)]
pub struct NodeInfo {
    /// full key of this node
    pub path: Vec<u8>,
    pub label: Vec<u8>,
    pub prefix_id: Option<Vec<u8>>,
    pub value_id: Option<Vec<u8>>,
    pub value: Option<Vec<u8>>,
    pub children_id: Option<Vec<u8>>,
    pub parent: Option<usize>,
    pub kids: Vec<usize>,
}

#[derive(Default, Debug)]
pub struct Decoded {
    pub model: Model,
    pub nodes: Vec<NodeInfo>,
    /// every id referenced below the root (not the root id itself)
    pub ids: BTreeMap<Vec<u8>, Kind>,
    pub record_const: u64,
    pub record_var: u64,
    pub inline: u64,
    pub indirect: u64,
}

pub type Fetch<'a> = dyn Fn(&[u8]) -> Result<Vec<u8>, String> + 'a;

enum Field {
    Inline(Vec<u8>),
    Id(Vec<u8>),
    None,
}

fn field(rest: &mut &[u8], what: &str) -> R<Field> {
    let Some((h, r)) = rest.split_first() else { fail!("{}: header byte missing", what) };
    let n = (h & 0x7f) as usize;
    ensure!(r.len() >= n, "{}: header says {} bytes, only {} left", what, n, r.len());
    let (d, r) = r.split_at(n);
    *rest = r;
    Ok(if h & 0x80 == 0 {
        Field::Inline(d.to_vec())
    } else if n == 0 {
        Field::None
    } else {
        Field::Id(d.to_vec())
    })
}

pub struct Decoder<'a> {
    pub fetch: &'a Fetch<'a>,
    /// check canonical form (what radixdb itself writes)
    pub canonical: bool,
    pub out: Decoded,
}

impl<'a> Decoder<'a> {
    pub fn decode(fetch: &'a Fetch<'a>, root: &[u8], canonical: bool) -> R<Decoded> {
        let mut d = Decoder { fetch, canonical, out: Decoded::default() };
        let data = fetch(root)?;
        let mut rest = &data[..];
        d.node(&mut rest, None, &[])?;
        ensure!(rest.is_empty(), "root blob has {} trailing bytes", rest.len());
        Ok(d.out)
    }

    fn refer(&mut self, id: &[u8], kind: Kind) {
        self.out.ids.insert(id.to_vec(), kind);
        self.out.indirect += 1;
    }

    fn node(&mut self, rest: &mut &[u8], parent: Option<usize>, at: &[u8]) -> R<usize> {
        ensure!(self.out.nodes.len() < 2_000_000, "too many nodes");
        let (prefix_id, label) = match field(rest, "prefix")? {
            Field::Inline(d) => {
                self.out.inline += 1;
                (None, d)
            }
            Field::None => fail!("prefix is None"),
            Field::Id(d) => {
                let (first, id) = (d[0], &d[1..]);
                let data = (self.fetch)(id).map_err(|e| format!("prefix blob {}: {}", hex(id), e))?;
                ensure!(!data.is_empty() && data[0] == first, "first byte {:02x} of an indirect prefix is not that of the prefix", first);
                if self.canonical {
                    ensure!(data.len() > 127, "a prefix of {} bytes is stored indirectly", data.len());
                }
                self.refer(id, Kind::Prefix);
                (Some(id.to_vec()), data)
            }
        };
        ensure!(parent.is_none() || !label.is_empty(), "empty label below the root at {}", hex(at));
        let mut path = at.to_vec();
        path.extend_from_slice(&label);
        let (value_id, value) = match field(rest, "value")? {
            Field::None => (None, None),
            Field::Inline(d) => {
                self.out.inline += 1;
                (None, Some(d))
            }
            Field::Id(id) => {
                let data = (self.fetch)(&id).map_err(|e| format!("value blob {}: {}", hex(&id), e))?;
                if self.canonical {
                    ensure!(data.len() > 127, "a value of {} bytes is stored indirectly", data.len());
                }
                self.refer(&id, Kind::Value);
                (Some(id), Some(data))
            }
        };
        let kids = match field(rest, "children")? {
            Field::None => None,
            Field::Inline(_) => fail!("children stored inline"),
            Field::Id(d) => {
                ensure!(d.len() >= 2, "children reference of {} bytes", d.len());
                Some((d[0] as usize, d[1..].to_vec()))
            }
        };
        let me = self.out.nodes.len();
        if let Some(v) = &value {
            ensure!(self.out.model.insert(path.clone(), v.clone()).is_none(), "key {} twice", hex(&path));
        }
        self.out.nodes.push(NodeInfo {
            path: path.clone(),
            label,
            prefix_id,
            value_id,
            value,
            children_id: kids.as_ref().map(|x| x.1.clone()),
            parent,
            kids: vec![],
        });
        if let Some((size, id)) = kids {
            let data = (self.fetch)(&id).map_err(|e| format!("children blob {}: {}", hex(&id), e))?;
            self.refer(&id, Kind::Children);
            let mut r = &data[..];
            let mut sizes = Vec::new();
            let mut last: Option<u8> = None;
            while !r.is_empty() {
                let before = r.len();
                let k = self.node(&mut r, Some(me), &path)?;
                sizes.push(before - r.len());
                let first = self.out.nodes[k].label[0];
                if let Some(l) = last {
                    ensure!(l < first, "children of {} are not sorted by first byte", hex(&path));
                }
                last = Some(first);
                self.out.nodes[me].kids.push(k);
            }
            ensure!(!sizes.is_empty(), "empty children blob at {}", hex(&path));
            let common = if sizes.iter().all(|s| *s == sizes[0]) && sizes[0] <= 255 { sizes[0] } else { 0 };
            if size != 0 {
                self.out.record_const += 1;
            } else {
                self.out.record_var += 1;
            }
            if self.canonical {
                ensure!(size == common, "record size byte is {} instead of {} at {}", size, common, hex(&path));
                ensure!(sizes.len() >= 2 || self.out.nodes[me].value.is_some(), "node {} has one child and no value", hex(&path));
            } else {
                ensure!(size == 0 || size == common, "record size byte is {} instead of {} at {}", size, common, hex(&path));
            }
        } else if parent.is_some() || !self.out.nodes[me].label.is_empty() {
            ensure!(self.out.nodes[me].value.is_some(), "node {} has neither value nor children", hex(&path));
        }
        Ok(me)
    }
}

/// Independent encoder. `put` stores a blob and returns its id; ids must have at most 126 bytes.
pub struct Encoder<'a> {
    pub put: &'a mut dyn FnMut(&[u8]) -> Vec<u8>,
    /// 0: as radixdb would do it; otherwise also short data is sometimes stored indirectly,
    /// and the record size byte is sometimes left 0 (both allowed by the format)
    pub variant: bool,
    pub rng: Rng,
}

impl<'a> Encoder<'a> {
    fn header(id: bool, n: usize) -> u8 {
        assert!(n <= 127);
        (n as u8) | if id { 0x80 } else { 0 }
    }
    /// entries all start with the first `at` bytes in common with this node's parent path
    pub fn node(&mut self, entries: &[(&Vec<u8>, &Vec<u8>)], at: usize) -> Vec<u8> {
        let mut out = Vec::new();
        if entries.is_empty() {
            return vec![0x00, 0x80, 0x80];
        }
        let first = entries[0].0;
        let last = entries[entries.len() - 1].0;
        let end = first.iter().zip(last.iter()).take_while(|(a, b)| a == b).count();
        let label = &first[at..end];
        let indirect = label.len() > 127 || (self.variant && !label.is_empty() && self.rng.chance(1, 5));
        if indirect {
            let id = (self.put)(label);
            out.push(Self::header(true, id.len() + 1));
            out.push(label[0]);
            out.extend_from_slice(&id);
        } else {
            out.push(Self::header(false, label.len()));
            out.extend_from_slice(label);
        }
        let mut rest = entries;
        if first.len() == end {
            let v = entries[0].1;
            if v.len() > 127 || (self.variant && self.rng.chance(1, 5)) {
                let id = (self.put)(v);
                out.push(Self::header(true, id.len()));
                out.extend_from_slice(&id);
            } else {
                out.push(Self::header(false, v.len()));
                out.extend_from_slice(v);
            }
            rest = &entries[1..];
        } else {
            out.push(0x80);
        }
        if rest.is_empty() {
            out.push(0x80);
            return out;
        }
        let mut blob = Vec::new();
        let mut sizes = Vec::new();
        let mut i = 0;
        while i < rest.len() {
            let c = rest[i].0[end];
            let mut j = i;
            while j < rest.len() && rest[j].0[end] == c {
                j += 1;
            }
            let n = self.node(&rest[i..j], end);
            sizes.push(n.len());
            blob.extend_from_slice(&n);
            i = j;
        }
        let mut size = if sizes.iter().all(|s| *s == sizes[0]) && sizes[0] <= 255 { sizes[0] as u8 } else { 0 };
        if self.variant && self.rng.chance(1, 4) {
            size = 0;
        }
        let id = (self.put)(&blob);
        out.push(Self::header(true, id.len() + 1));
        out.push(size);
        out.extend_from_slice(&id);
        out
    }
    pub fn tree(&mut self, m: &Model) -> Vec<u8> {
        let e: Vec<_> = m.iter().collect();
        let root = self.node(&e, 0);
        (self.put)(&root)
    }
}
