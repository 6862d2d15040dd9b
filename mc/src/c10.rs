//! C10: importing OpenStreetMap-files.
use crate::{
    c04::{faithful, must_build},
    engine::{guard, perms, pow, Ctx, Dig, Local, Verdict},
    model::*,
    osm::{CATEGORIES, HIGHWAY, MAXSPEED, ONEWAY},
};
use byteorder::{BigEndian, WriteBytesExt};
use osmgraphing::io;
use osmpbfreader::{fileformat, osmformat, OsmObj, OsmPbfReader};
use protobuf::Message;
use std::{fs, io::Write, path::Path};

pub type Tags = Vec<(String, String)>;

#[derive(Clone, Debug, PartialEq)]
pub struct Way {
    pub refs: Vec<i64>,
    pub tags: Tags,
}

/// id, latitude, longitude in 1e-7 degrees
pub type Node = (i64, i32, i32);

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Osm {
    pub nodes: Vec<Node>,
    pub ways: Vec<Way>,
}

fn nd(id: i64) -> Node {
    (id, 480_000_000 + (id % 1000) as i32 * 12_345, -(id % 1000) as i32 * 54_321 - 7)
}

pub fn way(refs: &[i64], tags: &[(&str, &str)]) -> Way {
    Way {
        refs: refs.to_vec(),
        tags: tags.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Col {
    Speed,
    Lanes,
    Ignored,
}

#[derive(Clone, Debug)]
pub struct Who {
    /// car, bicycle, pedestrian
    vehicle: usize,
    picky: bool,
    cols: Vec<Col>,
}

impl Who {
    pub fn car() -> Who {
        Who {
            vehicle: 0,
            picky: true,
            cols: vec![Col::Speed, Col::Lanes],
        }
    }
    /// of a car, not picky
    pub fn driver() -> Who {
        Who { picky: false, ..Who::car() }
    }
    fn yaml(&self, map: &Path) -> String {
        let mut s = format!("parsing:\n  map-file: '{}'\n", map.display());
        s += &format!("  vehicles: {{ category: {}, are_drivers_picky: {} }}\n", ["Car", "Bicycle", "Pedestrian"][self.vehicle], self.picky);
        s += "  nodes:\n  - meta: { info: NodeId, id: node-id }\n  - metric: { unit: Latitude, id: lat }\n  - metric: { unit: Longitude, id: lon }\n";
        s += "  edges:\n    data:\n    - meta: { info: SrcId, id: src-id }\n    - meta: { info: DstId, id: dst-id }\n";
        for (i, c) in self.cols.iter().enumerate() {
            s += &match c {
                Col::Speed => format!("    - metric: {{ unit: KilometersPerHour, id: m{} }}\n", i),
                Col::Lanes => format!("    - metric: {{ unit: LaneCount, id: m{} }}\n", i),
                Col::Ignored => "    - ignored\n".to_string(),
            };
        }
        s
    }
}

// ------------------------------------------------------------------ meaning of the tags

fn tag<'a>(w: &'a Way, k: &str) -> Option<&'a str> {
    w.tags.iter().find(|t| t.0 == k).map(|t| &t.1[..])
}

fn lower(s: &str) -> String {
    s.trim().chars().map(|c| c.to_ascii_lowercase()).collect()
}

/// None: this value's meaning is left open
fn edges_of(w: &Way, who: &Who) -> Vec<E> {
    let none = vec![];
    if w.refs.len() < 2 {
        return none;
    }
    let h = match tag(w, "highway") {
        Some(h) => lower(h),
        None => return none,
    };
    let cat = match HIGHWAY.iter().find(|x| x.0 == h) {
        Some((_, c)) if !c.is_empty() => *c,
        _ => return none,
    };
    let (_, lanes, speed, ok) = CATEGORIES.iter().find(|x| x.0 == cat).expect("harness: category");
    if !ok[who.vehicle][who.picky as usize] {
        return none;
    }
    let speed = match tag(w, "maxspeed") {
        None => *speed,
        Some(v) => {
            if !v.is_empty() && v.len() <= 5 && v.bytes().all(|b| b.is_ascii_digit()) && v.parse::<u32>().unwrap() <= 65_535 {
                (v.parse::<u32>().unwrap() as f64).max(5.0)
            } else {
                match MAXSPEED.iter().find(|x| x.0 == lower(v)) {
                    Some((_, s)) if *s > 0.0 => *s,
                    _ => *speed,
                }
            }
        }
    };
    let dir = match tag(w, "oneway") {
        None => 0,
        Some(v) => ONEWAY.iter().find(|x| x.0 == lower(v)).map(|x| x.1).unwrap_or(0),
    };
    let m: Vec<f64> = who
        .cols
        .iter()
        .filter_map(|c| match c {
            Col::Speed => Some(speed),
            Col::Lanes => Some(*lanes as f64),
            Col::Ignored => None,
        })
        .collect();
    let mut r = vec![];
    for p in w.refs.windows(2) {
        if dir >= 0 {
            r.push(e(p[0], p[1], &m));
        }
        if dir <= 0 {
            r.push(e(p[1], p[0], &m));
        }
    }
    r
}

pub fn meaning(o: &Osm, who: &Who) -> (Vec<E>, Vec<N>) {
    let es = o.ways.iter().flat_map(|w| edges_of(w, who)).collect();
    let ns = o
        .nodes
        .iter()
        .map(|x| N {
            id: x.0,
            lat: x.1 as f64 * 1e-7,
            lon: x.2 as f64 * 1e-7,
            level: None,
        })
        .collect();
    (es, ns)
}

// ------------------------------------------------------------------ writing files

#[derive(Clone, Copy, Debug)]
pub struct Layout {
    dense: bool,
    zlib: bool,
    granularity: i32,
    offset: i64,
    /// nodes and ways per block, 0: all in one block
    per_block: usize,
    ways_first: bool,
    /// relation, header, a blob of an unknown kind
    extras: bool,
}

pub const PLAIN: Layout = Layout {
    dense: false,
    zlib: false,
    granularity: 100,
    offset: 0,
    per_block: 0,
    ways_first: false,
    extras: false,
};

/// with blobs of 50 objects, compressed
pub const MANY: Layout = Layout { dense: true, zlib: true, per_block: 50, ..PLAIN };

fn blob(kind: &str, data: &[u8], zlib: bool) -> Vec<u8> {
    let mut b = fileformat::Blob::new();
    if zlib {
        let mut z = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::default());
        z.write_all(data).unwrap();
        b.set_zlib_data(z.finish().unwrap());
        b.set_raw_size(data.len() as i32);
    } else {
        b.set_raw(data.to_vec());
    }
    let body = b.write_to_bytes().unwrap();
    let mut h = fileformat::BlobHeader::new();
    h.set_field_type(kind.to_string());
    h.set_datasize(body.len() as i32);
    let head = h.write_to_bytes().unwrap();
    let mut r = vec![];
    r.write_u32::<BigEndian>(head.len() as u32).unwrap();
    r.extend(head);
    r.extend(body);
    r
}

fn block(nodes: &[Node], ways: &[(i64, Way)], lay: &Layout, relation: bool) -> Vec<u8> {
    let mut strings: Vec<Vec<u8>> = vec![vec![]];
    let mut sid = |s: &str| -> u32 {
        let b = s.as_bytes();
        match strings[1..].iter().position(|x| x == b) {
            Some(i) => i as u32 + 1,
            None => {
                strings.push(b.to_vec());
                strings.len() as u32 - 1
            }
        }
    };
    let mut pb = osmformat::PrimitiveBlock::new();
    let gran = |v: i32| (v as i64 * 100 - lay.offset) / lay.granularity as i64;
    let mut groups = vec![];
    if !nodes.is_empty() {
        let mut g = osmformat::PrimitiveGroup::new();
        if lay.dense {
            let mut d = osmformat::DenseNodes::new();
            let (mut a, mut b, mut c) = (0i64, 0i64, 0i64);
            for n in nodes {
                d.mut_id().push(n.0.wrapping_sub(a));
                d.mut_lat().push(gran(n.1) - b);
                d.mut_lon().push(gran(n.2) - c);
                d.mut_keys_vals().push(sid("name") as i32);
                d.mut_keys_vals().push(sid("highway") as i32);
                d.mut_keys_vals().push(0);
                a = n.0;
                b = gran(n.1);
                c = gran(n.2);
            }
            g.set_dense(d);
        } else {
            for n in nodes {
                let mut x = osmformat::Node::new();
                x.set_id(n.0);
                x.set_lat(gran(n.1));
                x.set_lon(gran(n.2));
                g.mut_nodes().push(x);
            }
        }
        groups.push(g);
    }
    if !ways.is_empty() {
        let mut g = osmformat::PrimitiveGroup::new();
        for (id, w) in ways {
            let mut x = osmformat::Way::new();
            x.set_id(*id);
            let mut last = 0i64;
            for r in &w.refs {
                x.mut_refs().push(r.wrapping_sub(last));
                last = *r;
            }
            for (k, v) in &w.tags {
                x.mut_keys().push(sid(k));
                x.mut_vals().push(sid(v));
            }
            g.mut_ways().push(x);
        }
        groups.push(g);
    }
    if relation {
        let mut g = osmformat::PrimitiveGroup::new();
        let mut x = osmformat::Relation::new();
        x.set_id(1);
        x.mut_keys().push(sid("highway"));
        x.mut_vals().push(sid("residential"));
        x.mut_memids().push(1);
        x.mut_types().push(osmformat::Relation_MemberType::WAY);
        x.mut_roles_sid().push(sid("outer") as i32);
        g.mut_relations().push(x);
        groups.push(g);
    }
    if lay.ways_first {
        groups.reverse();
    }
    for g in groups {
        pb.mut_primitivegroup().push(g);
    }
    pb.set_granularity(lay.granularity);
    pb.set_lat_offset(lay.offset);
    pb.set_lon_offset(lay.offset);
    let mut st = osmformat::StringTable::new();
    for s in strings {
        st.mut_s().push(s);
    }
    pb.set_stringtable(st);
    pb.write_to_bytes().unwrap()
}

fn header() -> Vec<u8> {
    let mut h = osmformat::HeaderBlock::new();
    h.mut_required_features().push("OsmSchema-V0.6".to_string());
    h.mut_required_features().push("DenseNodes".to_string());
    h.write_to_bytes().unwrap()
}

/// the blobs of a file
pub fn blobs(o: &Osm, lay: &Layout) -> Vec<Vec<u8>> {
    let ways: Vec<(i64, Way)> = o.ways.iter().cloned().enumerate().map(|(i, w)| (100 + i as i64, w)).collect();
    let mut r = vec![blob("OSMHeader", &header(), lay.zlib)];
    if lay.extras {
        r.push(blob("Something", b"else", false));
    }
    if lay.per_block == 0 {
        r.push(blob("OSMData", &block(&o.nodes, &ways, lay, lay.extras), lay.zlib));
    } else {
        let ns = o.nodes.chunks(lay.per_block).map(|x| blob("OSMData", &block(x, &[], lay, false), lay.zlib));
        let ws = ways.chunks(lay.per_block).map(|x| blob("OSMData", &block(&[], x, lay, lay.extras), lay.zlib));
        if lay.ways_first {
            r.extend(ws.chain(ns).collect::<Vec<_>>());
        } else {
            r.extend(ns.chain(ws).collect::<Vec<_>>());
        }
    }
    r
}

// ------------------------------------------------------------------ running

struct Case<'a> {
    dir: &'a Path,
    who: &'a Who,
}

impl<'a> Case<'a> {
    fn import(&self, bytes: &[u8], l: &mut Local) -> Result<Result<osmgraphing::network::Graph, String>, String> {
        let f = self.dir.join(format!("{}.osm.pbf", l.worker));
        fs::write(&f, bytes).expect("scratch");
        let cfg = try_cfg_yaml(&self.who.yaml(&f)).expect("harness: config");
        l.step(1);
        l.eval(1);
        guard(|| io::network::graph::Parser::parse_and_finalize(cfg).map_err(|e| e.to_string()))
    }
    fn judge(&self, bytes: &[u8], o: &Osm, l: &mut Local) -> Verdict {
        let (es, ns) = meaning(o, self.who);
        let text = || format!("{:?} {:?}", self.who, o);
        let r = self.import(bytes, l);
        l.validated += 1;
        if es.is_empty() {
            // a network without edges may be refused
            return match r.and_then(|x| x) {
                Ok(g) if g.fwd_edges().count() > 0 => Err(format!("{} edges though there is no street: {}", g.fwd_edges().count(), text())),
                _ => Ok(()),
            };
        }
        if !must_build(&es, &ns) {
            return match r.and_then(|x| x) {
                Ok(_) => Err(format!("an incomplete network is accepted: {}", text())),
                Err(_) => {
                    l.outcome(&0u8);
                    Ok(())
                }
            };
        }
        let g = r.and_then(|x| x).map_err(|m| format!("{}: {}", m, text()))?;
        faithful(&g, &es, &ns, l).map_err(|m| format!("{}: {}", m, text()))?;
        l.sample(text);
        Ok(())
    }
    fn all(&self, o: &Osm, l: &mut Local) -> Verdict {
        self.judge(&blobs(o, &PLAIN).concat(), o, l)
    }
}

/// what the pbf-library reads one after another: None: it panics, Some(Err): a broken block
fn reread(bytes: &[u8]) -> Option<Result<Osm, String>> {
    guard(|| {
        let mut r = OsmPbfReader::new(std::io::Cursor::new(bytes));
        let mut o = Osm::default();
        for x in r.iter() {
            match x {
                Err(e) => return Err(e.to_string()),
                Ok(OsmObj::Node(n)) => o.nodes.push((n.id.0, n.decimicro_lat, n.decimicro_lon)),
                Ok(OsmObj::Way(w)) => o.ways.push(Way {
                    refs: w.nodes.iter().map(|i| i.0).collect(),
                    tags: w.tags.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
                }),
                Ok(_) => (),
            }
        }
        Ok(o)
    })
    .ok()
}

fn variants(v: &str) -> Vec<String> {
    vec![v.to_string(), v.to_ascii_uppercase(), format!("{} ", v)]
}

pub fn run(c: &mut Ctx) {
    crate::engine::MUTE.store(true, std::sync::atomic::Ordering::Relaxed);
    let dir = c.scratch().to_path_buf();
    let whos: Vec<Who> = (0..6)
        .map(|i| Who {
            vehicle: i / 2,
            picky: i % 2 == 1,
            ..Who::car()
        })
        .collect();

    // each highway-value on its own pair of nodes
    c.family("streets", "all known highway-values, in upper case, with trailing blank, cut short, extended x vehicle x picky", 6 * 5, |i, l| {
        let mut d = Dig(i);
        let who = &whos[d.take(6) as usize];
        let v = d.take(5) as usize;
        let mut o = Osm::default();
        for (k, (h, _)) in HIGHWAY.iter().enumerate() {
            let value = match v {
                3 => h[..h.char_indices().last().map(|x| x.0).unwrap_or(0)].to_string(),
                4 => format!("{}x", h),
                _ => variants(h)[v].clone(),
            };
            let (a, b) = (2 * k as i64, 2 * k as i64 + 1);
            o.nodes.extend(vec![nd(a), nd(b)]);
            o.ways.push(way(&[a, b], &[("highway", &value)]));
        }
        // never a street
        o.nodes.extend(vec![nd(900), nd(901)]);
        for t in &[vec![], vec![("railway", "residential")], vec![("highway", "")], vec![("highway", "unheard of")], vec![("Highway", "residential")]] {
            o.ways.push(way(&[900, 901], t));
        }
        Case { dir: &dir, who }.all(&o, l)
    });

    c.family("street-alone", "each highway-value as the file's only way x vehicle x picky", 6 * HIGHWAY.len() as u64, |i, l| {
        let mut d = Dig(i);
        let who = &whos[d.take(6) as usize];
        let h = HIGHWAY[d.take(HIGHWAY.len() as u64) as usize].0;
        let o = Osm {
            nodes: vec![nd(1), nd(2)],
            ways: vec![way(&[1, 2], &[("highway", h)])],
        };
        Case { dir: &dir, who }.all(&o, l)
    });

    // speeds: numbers and words, per category
    let words: Vec<String> = MAXSPEED
        .iter()
        .flat_map(|x| variants(x.0))
        .chain((0..=300).map(|x: u32| x.to_string()))
        .chain(["65535", "65536", "99999999999", "050", "-50", "50.5", "", "fast", "50 km/h", "1e2"].iter().map(|s| s.to_string()))
        .collect();
    c.family("speeds", "all numbers 0..300, limits of u16, all known words in three spellings, unknown words x category x vehicle", 6 * CATEGORIES.len() as u64, |i, l| {
        let mut d = Dig(i);
        let who = &whos[d.take(6) as usize];
        let cat = CATEGORIES[d.take(CATEGORIES.len() as u64) as usize].0;
        let mut o = Osm::default();
        for (k, s) in words.iter().enumerate() {
            let (a, b) = (2 * k as i64, 2 * k as i64 + 1);
            o.nodes.extend(vec![nd(a), nd(b)]);
            o.ways.push(way(&[a, b], &[("maxspeed", s), ("highway", cat), ("lanes", "7")]));
        }
        Case { dir: &dir, who }.all(&o, l)
    });

    // directions: all shapes of a way
    let dirs: Vec<Option<String>> = vec![None]
        .into_iter()
        .chain(ONEWAY.iter().flat_map(|x| variants(x.0)).map(Some))
        .chain(vec![Some("".to_string()), Some("perhaps".to_string()), Some("- 1".to_string())])
        .collect();
    c.family("directions", "all known and some unknown oneway-values in three spellings x category", (dirs.len() * CATEGORIES.len()) as u64, |i, l| {
        let mut d = Dig(i);
        let dir_ = &dirs[d.take(dirs.len() as u64) as usize];
        let cat = CATEGORIES[d.take(CATEGORIES.len() as u64) as usize].0;
        let mut w = way(&[5, 3, 8, 4], &[("highway", cat)]);
        if let Some(v) = dir_ {
            w.tags.push(("oneway".into(), v.clone()));
        }
        let o = Osm {
            nodes: vec![nd(3), nd(4), nd(5), nd(8)],
            ways: vec![w],
        };
        for who in &[&whos[0], &whos[2], &whos[4]] {
            Case { dir: &dir, who }.all(&o, l)?;
        }
        Ok(())
    });

    let len = c.pick(5u32, 6);
    let mut shapes = vec![];
    for n in 0..=len {
        for i in 0..pow(3, n) {
            let mut d = Dig(i);
            shapes.push((0..n).map(|_| 1 + d.take(3) as i64).collect::<Vec<_>>());
        }
    }
    c.family("shapes", "all ways of up to 5 (thorough: 6) references over 3 nodes (loops, repetitions, empty ones) x forth, back, both", 3 * shapes.len() as u64, |i, l| {
        let mut d = Dig(i);
        let ow = ["yes", "-1", "no"][d.take(3) as usize];
        let s = &shapes[d.take(shapes.len() as u64) as usize];
        let o = Osm {
            nodes: vec![nd(1), nd(2), nd(3)],
            ways: vec![way(s, &[("highway", "primary"), ("oneway", ow)]), way(&[2, 3], &[("highway", "primary"), ("oneway", "yes")])],
        };
        Case { dir: &dir, who: &Who::car() }.all(&o, l)
    });

    // several ways
    let k = c.pick(2u32, 3);
    let small: Vec<Way> = {
        let mut v = vec![];
        for refs in &[vec![1, 2], vec![2, 1], vec![1, 2, 3], vec![3, 2, 1], vec![2, 2], vec![1]] {
            for t in &[
                vec![("highway", "residential")],
                vec![("highway", "residential"), ("oneway", "yes")],
                vec![("highway", "residential"), ("oneway", "-1"), ("maxspeed", "30")],
                vec![("highway", "track")],
                vec![("highway", "cycleway")],
            ] {
                v.push(way(refs, t));
            }
        }
        v
    };
    let m = small.len() as u64;
    c.family("several-ways", "all sequences of 2 (thorough: 3) of 30 ways over the same nodes x vehicle", 3 * pow(m, k), |i, l| {
        let mut d = Dig(i);
        let who = &whos[d.take(3) as usize * 2];
        let o = Osm {
            nodes: vec![nd(3), nd(1), nd(2)],
            ways: (0..k).map(|_| small[d.take(m) as usize].clone()).collect(),
        };
        Case { dir: &dir, who }.all(&o, l)
    });

    // nodes: order, surplus and missing ones, extreme places and ids
    let ids = [1i64, -5, 0, 4_000_000_000, 9_007_199_254_740_993, i64::MAX / 2];
    let ps = perms(4);
    c.family("nodes", "all orders of 4 nodes x all subsets of them present x surplus nodes x ids", (ps.len() * 16 * 2 * 3) as u64, |i, l| {
        let mut d = Dig(i);
        let p = &ps[d.take(ps.len() as u64) as usize];
        let mask = d.take(16);
        let surplus = d.take(2) == 1;
        let id = |k: usize| match i % 3 {
            0 => k as i64 + 1,
            1 => ids[k],
            _ => ids[5 - k],
        };
        d.take(3);
        let mut o = Osm {
            nodes: vec![],
            ways: vec![way(&[id(0), id(1), id(2)], &[("highway", "trunk")]), way(&[id(2), id(3)], &[("highway", "motorway_link"), ("oneway", "yes")])],
        };
        for &k in p {
            if mask >> k & 1 == 1 {
                o.nodes.push((id(k), [0, 900_000_000, -899_999_999, 1][k], [1_800_000_000, -1, 7, -1_800_000_000][k]));
            }
            if surplus {
                o.nodes.push(nd(77 + k as i64));
            }
        }
        Case { dir: &dir, who: &Who::car() }.all(&o, l)
    });

    // columns
    let cols = c.pick(4u32, 5);
    c.family("columns", "all lists of up to 4 (thorough: 5) columns of speed, lanes, ignored", (0..=cols).map(|n| pow(3, n)).sum(), |i, l| {
        let (mut i, mut n) = (i, 0);
        while i >= pow(3, n) {
            i -= pow(3, n);
            n += 1;
        }
        let mut d = Dig(i);
        let who = Who {
            cols: (0..n).map(|_| [Col::Speed, Col::Lanes, Col::Ignored][d.take(3) as usize]).collect(),
            ..Who::car()
        };
        let o = Osm {
            nodes: vec![nd(1), nd(2), nd(3)],
            ways: vec![way(&[1, 2], &[("highway", "motorway"), ("maxspeed", "80")]), way(&[2, 3], &[("highway", "residential")]), way(&[3, 1], &[("highway", "living_street"), ("maxspeed", "3")])],
        };
        Case { dir: &dir, who: &who }.all(&o, l)
    });

    let refused: Vec<&str> = vec![
        "meta: { info: EdgeId, id: x }", "meta: { info: SrcIdx, id: x }", "meta: { info: SrcLat, id: x }", "meta: { info: SrcLon, id: x }", "meta: { info: DstIdx, id: x }", "meta: { info: DstLat, id: x }",
        "meta: { info: DstLon, id: x }", "meta: { info: ShortcutIdx0, id: x }", "meta: { info: ShortcutIdx1, id: x }", "metric: { unit: Meters, id: x }", "metric: { unit: Kilometers, id: x }", "metric: { unit: Seconds, id: x }",
        "metric: { unit: Minutes, id: x }", "metric: { unit: Hours, id: x }", "metric: { unit: F64, id: x }",
    ];
    c.family("refused-columns", "every column which a pbf-file does not provide x position", 3 * refused.len() as u64, |i, l| {
        let mut d = Dig(i);
        let pos = d.take(3) as usize;
        let what = refused[d.take(refused.len() as u64) as usize];
        let f = dir.join(format!("{}.osm.pbf", l.worker));
        let o = Osm {
            nodes: vec![nd(1), nd(2)],
            ways: vec![way(&[1, 2], &[("highway", "motorway")])],
        };
        fs::write(&f, blobs(&o, &PLAIN).concat()).expect("scratch");
        let mut lines: Vec<String> = Who::car().yaml(&f).lines().map(|x| x.to_string()).collect();
        let at = lines.iter().position(|x| x.trim() == "data:").expect("harness") + 1 + pos;
        lines.insert(at, format!("    - {}", what));
        l.step(1);
        l.eval(1);
        match guard(|| try_cfg_yaml(&lines.join("\n")).and_then(|k| io::network::graph::Parser::parse_and_finalize(k).map(|_| ()).map_err(|e| e.to_string()))) {
            Ok(Ok(())) => Err(format!("column {} is accepted", what)),
            _ => Ok(()),
        }
    });

    // layouts of a file
    let base = Osm {
        nodes: (1..=7).map(nd).collect(),
        ways: vec![
            way(&[1, 2, 3], &[("highway", "primary")]),
            way(&[3, 4], &[("name", "highway"), ("highway", "residential"), ("oneway", "yes"), ("maxspeed", "30")]),
            way(&[4, 5, 6, 1], &[("oneway", "-1"), ("highway", "tertiary")]),
            way(&[6, 7], &[("highway", "footway")]),
            way(&[5, 2], &[("highway", "motorway"), ("maxspeed", "none")]),
        ],
    };
    c.family("layouts", "dense and plain nodes x zlib and raw x granularity x offset x objects per block x ways first x relation and other blobs", 2 * 2 * 3 * 2 * 5 * 2 * 2, |i, l| {
        let mut d = Dig(i);
        let lay = Layout {
            dense: d.take(2) == 1,
            zlib: d.take(2) == 1,
            granularity: [100, 1, 50][d.take(3) as usize],
            offset: [0, -100][d.take(2) as usize],
            per_block: [0, 1, 2, 3, 100][d.take(5) as usize],
            ways_first: d.take(2) == 1,
            extras: d.take(2) == 1,
        };
        Case { dir: &dir, who: &Who::car() }.judge(&blobs(&base, &lay).concat(), &base, l).map_err(|m| format!("{:?}: {}", lay, m))
    });

    c.family("many-blocks", "files of 10 to 400 blocks (more than threads can hold)", 5, |i, l| {
        let n = [10i64, 16, 17, 33, 200][i as usize];
        let o = Osm {
            nodes: (0..=n).map(nd).collect(),
            ways: (0..n).map(|k| way(&[k, k + 1], &[("highway", "residential"), ("maxspeed", &(10 + k).to_string()), ("oneway", "yes")])).collect(),
        };
        let lay = Layout { per_block: 1, ..PLAIN };
        Case { dir: &dir, who: &Who::car() }.judge(&blobs(&o, &lay).concat(), &o, l)
    });

    // damages
    let tiny = Osm {
        nodes: vec![nd(1), nd(2), nd(3)],
        ways: vec![way(&[1, 2], &[("highway", "primary")]), way(&[2, 3], &[("highway", "residential"), ("oneway", "yes")])],
    };
    let files: Vec<Vec<u8>> = vec![blobs(&tiny, &Layout { per_block: 1, ..PLAIN }).concat(), blobs(&tiny, &Layout { zlib: true, dense: true, ..PLAIN }).concat()];
    let damaged = |bytes: &[u8], l: &mut Local| -> Verdict {
        let case = Case { dir: &dir, who: &Who::car() };
        match reread(bytes) {
            // the library gives up
            None => match case.import(bytes, l) {
                Ok(Ok(_)) => Err("a file at which the pbf-library gives up is accepted".to_string()),
                _ => Ok(()),
            },
            Some(Err(m)) => match case.import(bytes, l) {
                Ok(Ok(g)) => Err(format!("a file with a broken block ({}) is accepted, with {} nodes and {} edges", m, g.nodes().count(), g.fwd_edges().count())),
                _ => {
                    l.outcome(&m);
                    Ok(())
                }
            },
            Some(Ok(o)) => case.judge(bytes, &o, l),
        }
    };
    c.family("cuts", "a file of 6 blocks and a compressed one, cut at every byte", files.iter().map(|f| f.len() as u64).sum(), |i, l| {
        let (f, at) = if (i as usize) < files[0].len() { (&files[0], i as usize) } else { (&files[1], i as usize - files[0].len()) };
        damaged(&f[..at], l).map_err(|m| format!("cut at byte {} of {}: {}", at, f.len(), m))
    });
    let values = c.pick(6u64, 255);
    c.family("bytes", "every byte of both files changed in 6 (thorough: all 255) ways", values * files.iter().map(|f| f.len() as u64).sum::<u64>(), |i, l| {
        let mut d = Dig(i);
        let v = d.take(values);
        let i = d.0 as usize;
        let (f, at) = if i < files[0].len() { (&files[0], i) } else { (&files[1], i - files[0].len()) };
        let mut b = f.to_vec();
        let x = if values == 255 { v as u8 + 1 } else { [1u8, 2, 0x80, 0xff, 0x10, 0x08][v as usize] };
        b[at] ^= x;
        // a length which would need gigabytes
        damaged(&b, l).map_err(|m| format!("byte {} of {} xor {}: {}", at, f.len(), x, m))
    });
    let bs = blobs(&tiny, &Layout { per_block: 1, ..PLAIN });
    c.family("lost-blocks", "every block left out, repeated or replaced by garbage of its size", 3 * bs.len() as u64, |i, l| {
        let mut d = Dig(i);
        let what = d.take(3);
        let at = d.0 as usize;
        let mut b = bs.clone();
        match what {
            0 => {
                b.remove(at);
            }
            1 => {
                let x = b[at].clone();
                b.insert(at, x);
            }
            _ => {
                let n = b[at].len();
                b[at] = blob("OSMData", &vec![0xff; n], false);
            }
        }
        damaged(&b.concat(), l).map_err(|m| format!("block {} of {} {}: {}", at, bs.len(), ["left out", "repeated", "garbage"][what as usize], m))
    });
}
