//! Shared by the checks of file formats: column layouts, configs, files in the scratch directory.
use crate::{engine::guard, model::*};
use osmgraphing::{configs, io, network::Graph};
use std::{fs, path::PathBuf};

pub type WCfg = configs::writing::network::graph::Config;
pub type ECfg = configs::writing::network::edges::Config;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum NC {
    Id,
    Level,
    Lat,
    Lon,
    Skip,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum EC {
    Id,
    Src,
    Dst,
    Sc0,
    Sc1,
    M(usize),
    Skip,
}

impl NC {
    pub fn name(self) -> Option<&'static str> {
        Some(match self {
            NC::Id => "node-id",
            NC::Level => "ch-level",
            NC::Lat => "lat",
            NC::Lon => "lon",
            NC::Skip => return None,
        })
    }
    fn parse_item(self) -> String {
        match self {
            NC::Id => "- meta: { info: NodeId, id: node-id }".into(),
            NC::Level => "- meta: { info: CHLevel, id: ch-level }".into(),
            NC::Lat => "- metric: { unit: Latitude, id: lat }".into(),
            NC::Lon => "- metric: { unit: Longitude, id: lon }".into(),
            NC::Skip => "- ignored".into(),
        }
    }
}

pub const MN: [&str; 5] = ["m0", "m1", "m2", "m3", "m4"];

impl EC {
    pub fn name(self) -> Option<&'static str> {
        Some(match self {
            EC::Id => "edge-id",
            EC::Src => "src-id",
            EC::Dst => "dst-id",
            EC::Sc0 => "sc-0",
            EC::Sc1 => "sc-1",
            EC::M(i) => MN[i],
            EC::Skip => return None,
        })
    }
    fn parse_item(self) -> String {
        match self {
            EC::Id => "- meta: { info: EdgeId, id: edge-id }".into(),
            EC::Src => "- meta: { info: SrcId, id: src-id }".into(),
            EC::Dst => "- meta: { info: DstId, id: dst-id }".into(),
            EC::Sc0 => "- meta: { info: ShortcutIdx0, id: sc-0 }".into(),
            EC::Sc1 => "- meta: { info: ShortcutIdx1, id: sc-1 }".into(),
            EC::M(i) => format!("- metric: {{ unit: F64, id: {} }}", MN[i]),
            EC::Skip => "- ignored".into(),
        }
    }
}

pub fn parse_text(file: &str, nc: &[NC], ec: &[EC], normalize: bool, gen: &str) -> String {
    let mut s = format!("parsing:\n  map-file: '{}'\n  nodes:\n", file);
    for c in nc {
        s += &format!("  {}\n", c.parse_item());
    }
    s += "  edges:\n";
    if normalize {
        s += "    will_normalize_metrics_by_mean: true\n";
    }
    s += "    data:\n";
    for c in ec {
        s += &format!("    {}\n", c.parse_item());
    }
    s += gen;
    s
}

pub fn write_text(file: &str, nc: &[NC], ec: &[EC], shortcuts: Option<bool>, denorm: Option<bool>) -> String {
    let mut s = format!("writing:\n  graph:\n    map-file: '{}'\n    nodes:\n", file);
    for c in nc {
        s += &match c.name() {
            Some(n) => format!("    - id: '{}'\n", n),
            None => "    - ignored\n".into(),
        };
    }
    s += "    edges:\n";
    if let Some(b) = shortcuts {
        s += &format!("      with_shortcuts: {}\n", b);
    }
    if let Some(b) = denorm {
        s += &format!("      will_denormalize_metrics_by_mean: {}\n", b);
    }
    s += "      ids:\n";
    for c in ec {
        s += &match c.name() {
            Some(n) => format!("      - id: '{}'\n", n),
            None => "      - ignored\n".into(),
        };
    }
    s
}

pub fn edges_text(file: &str, names: &[Option<&str>], shortcuts: Option<bool>, denorm: Option<bool>) -> String {
    let mut s = format!("writing:\n  edges-info:\n    file: '{}'\n", file);
    if let Some(b) = shortcuts {
        s += &format!("    with_shortcuts: {}\n", b);
    }
    if let Some(b) = denorm {
        s += &format!("    will_denormalize_metrics_by_mean: {}\n", b);
    }
    s += "    ids:\n";
    for c in names {
        s += &match c {
            Some(n) => format!("    - id: '{}'\n", n),
            None => "    - ignored\n".into(),
        };
    }
    s
}

pub fn wcfg(text: &str) -> WCfg {
    serde_yaml::from_str(text).unwrap_or_else(|e| panic!("harness config: {}\n{}", e, text))
}
pub fn ecfg(text: &str) -> ECfg {
    serde_yaml::from_str(text).unwrap_or_else(|e| panic!("harness config: {}\n{}", e, text))
}

/// scratch files live in memory if possible
pub fn scratch_file(dir: &std::path::Path, worker: usize, ext: &str) -> PathBuf {
    let p = dir.join(format!("w{}.{}", worker, ext));
    let _ = fs::remove_file(&p);
    p
}

pub fn parse_file(cfg: PCfg) -> Result<Graph, String> {
    guard(|| io::network::graph::Parser::parse_and_finalize(cfg)).and_then(|r| r.map_err(|e| e.to_string()))
}

pub fn write_graph(g: &Graph, w: &WCfg) -> Result<(), String> {
    guard(|| io::network::graph::Writer::write(g, w)).and_then(|r| r.map_err(|e| e.to_string()))
}

pub fn write_edges(g: &Graph, w: &ECfg) -> Result<(), String> {
    guard(|| io::network::edges::Writer::write(g, w)).and_then(|r| r.map_err(|e| e.to_string()))
}
