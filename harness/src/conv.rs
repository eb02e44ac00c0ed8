//! Between the library's object files and the harness's
use crate::obj::{Obj, Sym};
use std::collections::BTreeMap;
use telda2::aalv::obj::*;

pub fn to_lib(o: &Obj) -> Object {
    let st = |b: u8| SegmentType::try_from(b).expect("HARNESS: segment type");
    let mut segs = BTreeMap::new();
    for (t, a, b) in &o.segs {
        segs.insert(st(*t), (*a, b.clone()));
    }
    Object {
        file_offset: o.offset,
        entry: o.entry.map(|(t, a)| Entry(st(t), a)),
        flags: o.flags.map(|readable_text| Flags { readable_text }),
        stack_size: o.stack.map(StackSize),
        heap_size: o.heap.map(HeapSize),
        segs,
        symbols: SymbolTable(
            o.syms
                .iter()
                .map(|s| SymbolDefinition {
                    name: String::from_utf8_lossy(&s.name).into(),
                    is_global: s.global,
                    segment_type: st(s.seg),
                    location: s.loc,
                })
                .collect(),
        ),
        relocation_table: RelocationTable(
            o.relocs
                .iter()
                .map(|&(t, l, i)| RelocationEntry { reference_segment: st(t), reference_location: l, symbol_index: i })
                .collect(),
        ),
    }
}

pub fn from_lib(o: &Object) -> Obj {
    let mut segs: Vec<_> = o.segs.iter().map(|(&t, (a, b))| (t as u8, *a, b.clone())).collect();
    segs.sort_by_key(|s| s.0);
    Obj {
        offset: o.file_offset,
        entry: o.entry.map(|e| (e.0 as u8, e.1)),
        flags: o.flags.map(|f| f.readable_text),
        stack: o.stack_size.map(|s| s.0),
        heap: o.heap_size.map(|s| s.0),
        segs,
        syms: o
            .symbols
            .0
            .iter()
            .map(|s| Sym { name: s.name.as_bytes().to_vec(), global: s.is_global, seg: s.segment_type as u8, loc: s.location })
            .collect(),
        relocs: o.relocation_table.0.iter().map(|r| (r.reference_segment as u8, r.reference_location, r.symbol_index)).collect(),
    }
}
