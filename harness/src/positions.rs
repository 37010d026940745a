//! Lines and columns of texts (texts as code points).
use move_language_server::verif;
use serde_json::{json, Value};
use syntax::{TextRange, TextSize};

use crate::util::*;

fn boundaries(s: &str) -> Vec<u32> {
    s.char_indices().map(|(it, _)| it as u32).chain(std::iter::once(s.len() as u32)).collect()
}

/// {s, ranges?: [[i, j]]}: every boundary's conversions and the pieces of ranges (all, if not given).
pub fn lines(case: &Value) -> Value {
    let s = text(&case["s"]);
    let index = ide_db::LineIndex::new(&s);
    let at = boundaries(&s);
    let mut points = Vec::new();
    let utf8 = verif::position(&s, true, &at);
    let utf16 = verif::position(&s, false, &at);
    let back8 = verif::offset(&s, true, &utf8);
    let back16 = verif::offset(&s, false, &utf16);
    for (n, &offset) in at.iter().enumerate() {
        let pos = index.line_col(TextSize::from(offset));
        let wide = index.to_utf16(pos);
        assert_eq!(pos.line, wide.line);
        assert_eq!((utf8[n].line, utf8[n].character), (pos.line, pos.col), "byte columns");
        assert_eq!((utf16[n].line, utf16[n].character), (wide.line, wide.col), "UTF-16 columns");
        assert_eq!(u32::from(index.offset(pos)), offset, "back from byte columns");
        assert_eq!(back8[n], offset, "back from byte columns");
        assert_eq!(index.to_utf8(wide), pos, "back from UTF-16 columns");
        assert_eq!(back16[n], offset, "back from UTF-16 columns");
        points.push(json!({"off": offset, "line": pos.line, "c8": pos.col, "c16": wide.col}));
    }
    let pieces = |i: usize, j: usize| {
        index
            .lines(TextRange::new(at[i].into(), at[j].into()))
            .map(|it| [u32::from(it.start()), u32::from(it.end())])
            .collect::<Vec<_>>()
    };
    let ranges: Value = match case["ranges"].as_array() {
        Some(ranges) => ranges
            .iter()
            .map(|it| pieces(it[0].as_u64().unwrap() as usize, it[1].as_u64().unwrap() as usize))
            .collect::<Vec<_>>()
            .into_iter()
            .map(|it| json!(it))
            .collect::<Vec<_>>()
            .into(),
        None => (0..at.len())
            .map(|i| (i..at.len()).map(|j| json!(pieces(i, j))).collect::<Vec<_>>())
            .map(Value::from)
            .collect::<Vec<_>>()
            .into(),
    };
    json!({ "points": points, "ranges": ranges })
}

/// {runs: [[code point, count]], at: [[run, characters into it]]} with ascending places: what every
/// conversion gives there, and how many pieces the ranges between neighbours have.
pub fn runlines(case: &Value) -> Value {
    let runs: Vec<(char, usize)> = arr(case, "runs")
        .iter()
        .map(|it| (char::from_u32(it[0].as_u64().unwrap() as u32).unwrap(), it[1].as_u64().unwrap() as usize))
        .collect();
    let s: String = runs.iter().flat_map(|&(c, n)| std::iter::repeat(c).take(n)).collect();
    let at: Vec<u32> = arr(case, "at")
        .iter()
        .map(|it| {
            let (r, m) = (it[0].as_u64().unwrap() as usize, it[1].as_u64().unwrap() as usize);
            let before: usize = runs[..r - 1].iter().map(|&(c, n)| c.len_utf8() * n).sum();
            (before + runs[r - 1].0.len_utf8() * m) as u32
        })
        .collect();
    let index = ide_db::LineIndex::new(&s);
    let utf8 = verif::position(&s, true, &at);
    let utf16 = verif::position(&s, false, &at);
    let back8 = verif::offset(&s, true, &utf8);
    let back16 = verif::offset(&s, false, &utf16);
    let mut points = Vec::new();
    for (n, &offset) in at.iter().enumerate() {
        assert_eq!(back8[n], offset, "back from byte columns");
        assert_eq!(back16[n], offset, "back from UTF-16 columns");
        assert_eq!(utf8[n].line, utf16[n].line);
        points.push(json!({"off": offset, "line": utf8[n].line, "c8": utf8[n].character, "c16": utf16[n].character}));
    }
    let pieces: Vec<usize> = at
        .windows(2)
        .map(|it| {
            let mut end = it[0];
            let pieces: Vec<_> = index.lines(TextRange::new(it[0].into(), it[1].into())).collect();
            for piece in &pieces {
                assert_eq!(u32::from(piece.start()), end, "pieces are contiguous");
                end = piece.end().into();
                assert!(!s[*piece].trim_end_matches('\n').contains('\n'), "a piece is within a line");
            }
            assert_eq!(end, it[1], "pieces cover the range");
            pieces.len()
        })
        .collect();
    json!({ "points": points, "pieces": pieces })
}
