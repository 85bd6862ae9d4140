//! Harnesses over data and JSON: what is loaded and written, and what is refused.
use super::refalg as r;
use super::refalg::{Pre, N};
use super::refpuz::*;
use super::rt::*;
use cubing_core::alg::*;
use cubing_core::kpuzzle::*;
use serde_json::Value;
use std::error::Error;

fn name(s: &str) -> KPuzzleOrbitName {
    KPuzzleOrbitName(s.to_owned())
}
fn any_vec(n: usize) -> Vec<u8> {
    bytes_n(n)
}
/// A length around what is needed.
fn near_len(p: u8) -> usize {
    let lo = (p as usize).saturating_sub(1);
    if thorough() {
        pick(p as usize + 3)
    } else {
        lo + pick(p as usize + 2 - lo)
    }
}
/// Whether the entries make up a transformation of the orbit (only the first `p` of them count).
fn valid_t(perm: &[u8], d: &[u8], o: &Orbit) -> bool {
    let p = o.p as usize;
    if perm.len() < p || d.len() < p {
        return false;
    }
    let mut ok = true;
    for i in 0..p {
        ok &= (perm[i] as usize) < p;
        ok &= d[i] < o.n;
        for j in 0..i {
            ok &= perm[i] != perm[j];
        }
    }
    ok
}
fn valid_q(pieces: &[u8], ori: &[u8], m: Option<&[u8]>, o: &Orbit) -> bool {
    let p = o.p as usize;
    if pieces.len() < p || ori.len() < p {
        return false;
    }
    if let Some(m) = m {
        if m.len() < p {
            return false;
        }
    }
    let mut ok = true;
    for i in 0..p {
        let m = m.map_or(0, |m| m[i]);
        let mut fine = (m == 0) & (ori[i] < o.n);
        for k in 1..=o.n {
            if o.n % k == 0 {
                fine |= (m == k) & (ori[i] < k);
            }
        }
        ok &= fine;
    }
    ok
}
fn is_t_err(e: &ConversionError) -> bool {
    matches!(e, ConversionError::InvalidKTransformationData(_))
}
fn is_q_err(e: &ConversionError) -> bool {
    matches!(e, ConversionError::InvalidKPatternData(_))
}
fn small_orbits() -> Vec<Orbit> {
    match pick(3) {
        0 => vec![orbit("A", 2, 3)],
        1 => vec![orbit("A", 1, 6), orbit("B", 2, 1)],
        _ => vec![orbit("A", 0, 2), orbit("B", 2, 4)],
    }
}
fn same_opt(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a, b),
        _ => false,
    }
}
fn same_qdata(a: &KPatternData, b: &KPatternData) -> bool {
    let mut ok = a.len() == b.len();
    for (k, x) in a {
        match b.get(k) {
            None => return false,
            Some(y) => ok &= same(&x.pieces, &y.pieces) & same(&x.orientation, &y.orientation) & same_opt(&x.orientation_mod, &y.orientation_mod),
        }
    }
    ok
}
fn same_tdata(a: &KTransformationData, b: &KTransformationData) -> bool {
    let mut ok = a.len() == b.len();
    for (k, x) in a {
        match b.get(k) {
            None => return false,
            Some(y) => ok &= same(&x.permutation, &y.permutation) & same(&x.orientation_delta, &y.orientation_delta),
        }
    }
    ok
}
/// Numbers written in decimal, separated by commas.
fn list(v: &[u8]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&dec(*x));
    }
    s.push(']');
    s
}
fn dec(x: u8) -> String {
    let mut s = String::new();
    if x >= 100 {
        s.push((b'0' + x / 100) as char);
    }
    if x >= 10 {
        s.push((b'0' + x / 10 % 10) as char);
    }
    s.push((b'0' + x % 10) as char);
    s
}

// ---- what JSON says, told from its generic form ----

fn list_of(v: &Value) -> Option<Vec<u8>> {
    let mut r = vec![];
    for x in v.as_array()? {
        let n = x.as_u64()?;
        if n > 255 {
            return None;
        }
        r.push(n as u8);
    }
    Some(r)
}
/// The fields of an object (or the elements of an array, in order).
fn fields<'a>(v: &'a Value, names: &[&str]) -> Option<Vec<Option<&'a Value>>> {
    match v {
        Value::Object(m) => Some(names.iter().map(|n| m.get(*n)).collect()),
        Value::Array(a) if a.len() == names.len() => Some(a.iter().map(Some).collect()),
        _ => None,
    }
}
fn t_of_json(v: &Value, os: &[Orbit]) -> Option<Vec<T>> {
    let m = v.as_object()?;
    let mut got = vec![];
    for (k, x) in m {
        let f = fields(x, &["permutation", "orientationDelta"])?;
        got.push((k.as_str(), list_of(f[0]?)?, list_of(f[1]?)?));
    }
    let mut r = vec![];
    for o in os {
        let (_, p, d) = got.iter().find(|g| g.0 == o.name)?;
        if !valid_t(p, d, o) {
            return None;
        }
        r.push(T { perm: p[..o.p as usize].to_vec(), d: d[..o.p as usize].to_vec() });
    }
    Some(r)
}
fn q_of_json(v: &Value, os: &[Orbit]) -> Option<Vec<Q>> {
    let m = v.as_object()?;
    let mut got = vec![];
    for (k, x) in m {
        let f = fields(x, &["pieces", "orientation", "orientationMod"])?;
        let md = match f[2] {
            None | Some(Value::Null) => None,
            Some(v) => Some(list_of(v)?),
        };
        got.push((k.as_str(), list_of(f[0]?)?, list_of(f[1]?)?, md));
    }
    let mut r = vec![];
    for o in os {
        let (_, p, d, md) = got.iter().find(|g| g.0 == o.name)?;
        if !valid_q(p, d, md.as_deref(), o) {
            return None;
        }
        let n = o.p as usize;
        r.push(Q { pieces: p[..n].to_vec(), o: d[..n].to_vec(), m: md.as_ref().map_or(vec![0; n], |m| m[..n].to_vec()) });
    }
    Some(r)
}
/// Up to `max` bytes without the characters that make floating point numbers.
fn hole(max: usize) -> Vec<u8> {
    let b = any_bytes(max);
    for x in &b {
        assume((*x != b'.') & (*x != b'e') & (*x != b'E'));
    }
    b
}
fn template(parts: &[&str], holes: &[Vec<u8>]) -> Vec<u8> {
    let mut t = parts[0].as_bytes().to_vec();
    for (p, h) in parts[1..].iter().zip(holes) {
        t.extend_from_slice(h);
        t.extend_from_slice(p.as_bytes());
    }
    t
}

cubing_core::kpuzzle_from_json_file!(pub(crate), style, "/repo/cubing_core/src/kpuzzle/example.kpuzzle.json");
cubing_core::kpattern_from_json_file!(pub(crate), style, "/repo/cubing_core/src/kpuzzle/example.kpattern.json", style_kpuzzle());
cubing_core::ktransformation_from_json_file!(pub(crate), style, "/repo/cubing_core/src/kpuzzle/example.ktransformation.json", style_kpuzzle());

harnesses! {
    // --- what is loaded is what was written
    fn h_data_transformation() {
        let os = small_orbits();
        let k = puzzle(&os);
        let t = any_ts(&os);
        let a = set_t(&k, &t);
        let d = a.to_data();
        cover(1);
        check!(1701 "the data of a transformation has its orbits and values", same_tdata(&d, &t_data(&os, &t)));
        match KTransformation::try_from_data(&k, &d) {
            Err(_) => check!(1702 "the data of a transformation is accepted", false),
            Ok(b) => {
                check!(1703 "the data of a transformation gives it back", eq_t(&get_t(&b), &t));
                check!(1704 "and that is equal to it", a == b);
            }
        }
    }
    fn h_data_pattern() {
        let os = small_orbits();
        let k = puzzle(&os);
        let q = any_qs(&os);
        let a = set_q(&k, &q);
        let d = a.to_data();
        cover(1);
        let mut ok = d.len() == os.len();
        for (o, x) in os.iter().zip(&q) {
            match d.get(&name(o.name)) {
                None => ok = false,
                Some(y) => {
                    ok &= same(&y.pieces, &x.pieces) & same(&y.orientation, &x.o);
                    let m = match &y.orientation_mod { Some(m) => m.clone(), None => vec![0; o.p as usize] };
                    ok &= m.len() == o.p as usize;
                    if m.len() == o.p as usize {
                        let (l, r) = (Q { m, ..x.clone() }, x.clone());
                        ok &= eq_q(&[l], &[r], std::slice::from_ref(o));
                    }
                }
            }
        }
        check!(1705 "the data of a pattern has its orbits and values", ok);
        match KPattern::try_from_data(&k, &d) {
            Err(_) => check!(1706 "the data of a pattern is accepted", false),
            Ok(b) => {
                check!(1707 "the data of a pattern gives it back", eq_q(&get_q(&b), &q, &os));
                check!(1708 "and that is equal to it", a == b);
            }
        }
    }
    fn h_json_transformation() {
        let os = [orbit("A", 2, 3)];
        let k = puzzle(&os);
        let t = any_ts(&os);
        let a = set_t(&k, &t);
        let s = serde_json::to_string(&a.to_data()).unwrap();
        let want = format!(r#"{{"A":{{"permutation":{},"orientationDelta":{}}}}}"#, list(&t[0].perm), list(&t[0].d));
        cover(1);
        check!(1709 "a transformation is written as JSON with the documented names", same(s.as_bytes(), want.as_bytes()));
        match KTransformation::try_from_json(&k, s.as_bytes()) {
            Err(_) => check!(1710 "the JSON of a transformation is accepted", false),
            Ok(b) => check!(1711 "the JSON of a transformation gives it back", a == b),
        }
    }
    fn h_json_pattern() {
        let n = [3, 107][pick(2)];
        let os = [orbit("A", 1, n)];
        let k = puzzle(&os);
        let q = any_qs(&os);
        // written by hand, with and without the moduli
        let q0 = &q[0];
        let bare = pick(3);
        if bare > 0 {
            assume(q0.m[0] == 0);
        }
        let want = match bare {
            0 => format!(r#"{{"A":{{"pieces":{},"orientation":{},"orientationMod":{}}}}}"#, list(&q0.pieces), list(&q0.o), list(&q0.m)),
            1 => format!(r#"{{"A":{{"pieces":{},"orientation":{},"orientationMod":null}}}}"#, list(&q0.pieces), list(&q0.o)),
            _ => format!(r#"{{"A":{{"pieces":{},"orientation":{}}}}}"#, list(&q0.pieces), list(&q0.o)),
        };
        cover(1);
        let a = set_q(&k, &q);
        match KPattern::try_from_json(&k, want.as_bytes()) {
            Err(_) => check!(1712 "JSON of a pattern with the documented names is accepted", false),
            Ok(b) => check!(1713 "JSON of a pattern means what it says", eq_q(&get_q(&b), &q, &os) & (a == b)),
        }
        if bare == 0 {
            let s = serde_json::to_string(&a.to_data()).unwrap();
            match KPattern::try_from_json(&k, s.as_bytes()) {
                Err(_) => check!(1714 "the JSON of a pattern is accepted", false),
                Ok(b) => check!(1715 "the JSON of a pattern gives it back", a == b),
            }
        }
    }
    fn h_data_default() {
        // the default pattern is the one of the definition
        let os = small_orbits();
        let q = any_qs(&os);
        let mut d = def(&os, vec![], None);
        let bare = pick(2) == 1;
        for x in q.iter() {
            for m in x.m.iter() {
                if bare {
                    assume(*m == 0);
                }
            }
        }
        d.default_pattern = q_data(&os, &q);
        if bare {
            for x in d.default_pattern.values_mut() {
                x.orientation_mod = None;
            }
        }
        cover(1);
        match KPuzzle::try_new(d) {
            Err(_) => check!(1716 "a definition with any default pattern is accepted", false),
            Ok(k) => check!(1717 "the default pattern is the one of the definition", eq_q(&get_q(&k.default_pattern()), &q, &os)),
        }
    }
    fn h_data_definition() {
        // a definition written as JSON and read again is the same
        let os = [orbit("A", 2, 3)];
        let one = if thorough() { 2 } else { pick(2) };
        let t = if one == 0 { vec![T { perm: vec![1, 0], d: vec![0, 2] }] } else { any_ts(&os) };
        let q = if one == 1 { vec![Q { pieces: vec![0, 255], o: vec![1, 2], m: vec![0, 3] }] } else { any_qs(&os) };
        let with = pick(3);
        let m = r::to_move(&N::Move([Pre::No, Pre::One(2), Pre::Two(2, 3)][pick(3)].clone(), b"Rw".to_vec(), [1, 2, -1][pick(3)]));
        let derived = match with {
            0 => None,
            1 => Some(vec![]),
            _ => Some(vec![(m.invert(), Alg { nodes: vec![m.clone().into(), m.clone().into()] })]),
        };
        let mut d = def(&os, vec![(m.clone(), t.clone())], derived);
        d.default_pattern = q_data(&os, &q);
        d.name = "a puzzle".to_owned();
        let s = serde_json::to_string(&d).unwrap();
        let has = |w: &str| s.contains(w);
        check!(1718 "a definition is written with the documented names", has("\"name\":\"a puzzle\"") && has("\"orbits\":[") && has("\"orbitName\":\"A\"") && has("\"numPieces\":2") && has("\"numOrientations\":3") && has("\"defaultPattern\":{") && has("\"moves\":{") && has("\"permutation\":[") && has("\"orientationDelta\":["));
        check!(1719 "derived moves are written when there are any", has("derivedMoves") == (with > 0));
        let e: KPuzzleDefinition = match serde_json::from_str(&s) {
            Err(_) => return check!(1720 "the JSON of a definition is accepted", false),
            Ok(e) => e,
        };
        cover(1);
        check!(1721 "a definition keeps its name and orbits", e.name == d.name && e.orbits.len() == 1 && e.orbits[0].orbit_name == d.orbits[0].orbit_name && e.orbits[0].num_pieces == 2 && e.orbits[0].num_orientations == 3);
        check!(1722 "a definition keeps its default pattern", same_qdata(&e.default_pattern, &d.default_pattern));
        let mut ok = e.moves.len() == 1;
        match e.moves.get(&m) {
            None => ok = false,
            Some(x) => ok &= same_tdata(x, &d.moves[&m]),
        }
        check!(1723 "a definition keeps its moves", ok);
        check!(1724 "a definition keeps its derived moves", match (&e.derived_moves, &d.derived_moves) {
            (None, None) => true,
            (Some(a), Some(b)) => a == b,
            _ => false,
        });
        match (KPuzzle::try_from_json(s.as_bytes()), KPuzzle::try_new(d)) {
            (Ok(x), Ok(y)) => {
                cover(2);
                check!(1725 "the puzzle is the same whether it went through JSON or not", eq_q(&get_q(&x.default_pattern()), &get_q(&y.default_pattern()), &os));
                match x.transformation_from_move(&m) {
                    Err(_) => check!(1726 "a move that went through JSON is found", false),
                    Ok(a) => check!(1727 "a move that went through JSON is the same", eq_t(&get_t(&a), &t)),
                }
                let z = y.definition();
                check!(1728 "a puzzle tells its definition", z.name == "a puzzle" && z.orbits.len() == 1 && same_qdata(&z.default_pattern, &e.default_pattern) && z.moves.len() == 1 && z.derived_moves.is_some() == (with > 0));
            }
            // (a derived move may need what it defines)
            (Err(_), Err(_)) => {}
            _ => check!(1729 "a definition is accepted as JSON exactly when it is", false),
        }
    }
    fn h_data_files() {
        // the macros that load files give the same value each time: what is in the file
        let k = style_kpuzzle();
        check!(1730 "a loaded puzzle is loaded once", std::ptr::eq(k, style_kpuzzle()));
        check!(1731 "a loaded puzzle is the one in the file", k.definition().name == "TurnStyle" && k.definition().moves.len() == 2);
        let q = style_kpattern();
        check!(1732 "a loaded pattern is loaded once", std::ptr::eq(q, style_kpattern()));
        let g = get_q(q);
        check!(1733 "a loaded pattern is the one in the file", g.len() == 1 && same(&g[0].pieces, &[12, 3, 9, 11, 2, 1, 6, 4, 5, 10, 7, 8]) && same(&g[0].o, &[0; 12]));
        let t = style_ktransformation();
        check!(1734 "a loaded transformation is loaded once", std::ptr::eq(t, style_ktransformation()));
        let w = get_t(t);
        check!(1735 "a loaded transformation is the one in the file", w.len() == 1 && same(&w[0].perm, &[11, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]) && same(&w[0].d, &[0; 12]));
        // any pattern of the loaded puzzle
        let os = [orbit("DISKS", 12, 1)];
        let q = any_qs(&os);
        let p = set_q(k, &q);
        cover(1);
        check!(1736 "a loaded transformation works on any pattern", eq_q(&get_q(&p.apply_transformation(t)), &acts(&q, &w, &os), &os));
        match p.apply_move(&"CYCLE".parse().unwrap()) {
            Err(_) => check!(1737 "a move of a loaded puzzle is found", false),
            Ok(x) => check!(1738 "a move of a loaded puzzle works on any pattern", eq_q(&get_q(&x), &acts(&q, &w, &os), &os)),
        }
    }

    // --- what is not valid is refused
    fn h_bad_transformation() {
        let os = small_orbits();
        let k = puzzle(&os);
        let mut d = KTransformationData::new();
        let mut want = Some(vec![]);
        let mut ok = true;
        let mut exact = true;
        let missing = pick(os.len() + 1);
        for (i, o) in os.iter().enumerate() {
            if i == missing {
                ok = false;
                continue;
            }
            let wild = i + 1 == os.len();
            let (l, m) = if wild { (near_len(o.p), near_len(o.p)) } else { (o.p as usize, o.p as usize) };
            let (perm, dl) = (any_vec(l), any_vec(m));
            ok &= valid_t(&perm, &dl, o);
            exact &= l == o.p as usize && m == o.p as usize;
            if l >= o.p as usize && m >= o.p as usize {
                if let Some(w) = &mut want {
                    w.push(T { perm: perm[..o.p as usize].to_vec(), d: dl[..o.p as usize].to_vec() });
                }
            } else {
                want = None;
            }
            d.insert(name(o.name), KTransformationOrbitData { permutation: perm, orientation_delta: dl });
        }
        if pick(2) == 1 {
            // something else under another name does not matter
            d.insert(name("Z"), KTransformationOrbitData { permutation: vec![9], orientation_delta: vec![] });
        }
        match KTransformation::try_from_data(&k, &d) {
            Ok(t) => {
                cover(1);
                check!(1801 "data that is no transformation is refused", ok);
                if let Some(w) = want {
                    if missing >= os.len() {
                        check!(1802 "a transformation is what its data says", eq_t(&get_t(&t), &w));
                    }
                }
            }
            Err(e) => {
                cover(2);
                if exact {
                    check!(1803 "data that is a transformation is accepted", !ok);
                }
                check!(1804 "bad data of a transformation is reported as such", is_t_err(&e));
                check!(1805 "an error says something", !e.to_string().is_empty());
            }
        }
    }
    fn h_bad_pattern() {
        let os = small_orbits();
        let k = puzzle(&os);
        let mut d = KPatternData::new();
        let mut want = Some(vec![]);
        let mut ok = true;
        let mut exact = true;
        let missing = pick(os.len() + 1);
        for (i, o) in os.iter().enumerate() {
            if i == missing {
                ok = false;
                continue;
            }
            let wild = i + 1 == os.len();
            let p = o.p as usize;
            let (l, m) = if wild { (near_len(o.p), near_len(o.p)) } else { (p, p) };
            let (pieces, ori) = (any_vec(l), any_vec(m));
            let md = match pick(2) {
                0 => None,
                _ => Some(any_vec(if wild { near_len(o.p) } else { p })),
            };
            ok &= valid_q(&pieces, &ori, md.as_deref(), o);
            exact &= l == p && m == p && md.as_ref().map_or(true, |m| m.len() == p);
            if l >= p && m >= p && md.as_ref().map_or(true, |m| m.len() >= p) {
                if let Some(w) = &mut want {
                    w.push(Q { pieces: pieces[..p].to_vec(), o: ori[..p].to_vec(), m: md.as_ref().map_or(vec![0; p], |m| m[..p].to_vec()) });
                }
            } else {
                want = None;
            }
            d.insert(name(o.name), KPatternOrbitData { pieces, orientation: ori, orientation_mod: md });
        }
        match KPattern::try_from_data(&k, &d) {
            Ok(t) => {
                cover(1);
                check!(1806 "data that is no pattern is refused", ok);
                if let Some(w) = want {
                    if missing >= os.len() {
                        check!(1807 "a pattern is what its data says", eq_q(&get_q(&t), &w, &os));
                    }
                }
            }
            Err(e) => {
                cover(2);
                if exact {
                    check!(1808 "data that is a pattern is accepted", !ok);
                }
                check!(1809 "bad data of a pattern is reported as such", is_q_err(&e));
                check!(1810 "an error says something", !e.to_string().is_empty());
            }
        }
    }
    fn h_bad_definition() {
        // any number of orientations, any number of pieces, and a move for it
        let n = any_u8();
        let n = fix(n as u64) as u8;
        let p = pick(4) as u8;
        let os = [orbit("B", 1, 2), orbit("A", p, n)];
        let l = near_len(p);
        let (perm, d) = (any_vec(l), any_vec(p as usize));
        let mut df = def(&[orbit("B", 1, 2), orbit("A", p, if n == 0 { 1 } else { n })], vec![], None);
        df.orbits[1].num_orientations = n;
        let has_move = pick(2) == 1;
        if has_move {
            let mut m = KTransformationData::new();
            m.insert(name("A"), KTransformationOrbitData { permutation: perm.clone(), orientation_delta: d.clone() });
            m.insert(name("B"), KTransformationOrbitData { permutation: vec![0], orientation_delta: vec![1] });
            df.moves.insert(r::to_move(&N::Move(Pre::No, b"R".to_vec(), 1)), m);
        }
        let ok = n > 0 && n <= 107;
        let fine = !has_move || (ok && valid_t(&perm, &d, &os[1]));
        match KPuzzle::try_new(df) {
            Err(e) => {
                cover(1);
                if l == p as usize {
                    check!(1811 "a definition of supported orientations and valid moves is accepted", !ok || !fine);
                }
                check!(1812 "an error says something", !e.to_string().is_empty());
            }
            Ok(k) => {
                cover(2);
                check!(1813 "a definition is refused when orientations are not supported", ok);
                check!(1814 "a definition is refused when a move is no transformation", fine);
                if ok && fine {
                    let mut it = k.orbit_info_iter();
                    let (x, y) = (it.next(), it.next());
                    check!(1815 "the orbits are the ones of the definition", it.next().is_none() && match (x, y) { (Some(x), Some(y)) => x.name.0 == "B" && y.name.0 == "A" && x.num_pieces == 1 && y.num_pieces == p && x.num_orientations == 2 && y.num_orientations == n, _ => false });
                }
            }
        }
    }
    fn h_json_t_template() {
        let os = [orbit("A", 2, 3)];
        let k = puzzle(&os);
        let m = if thorough() { 3 } else { 2 };
        let t = match pick(6) {
            0 => template(&[r#"{"A":{"permutation":[1,"#, r#"],"orientationDelta":[0,0]}}"#], &[hole(m)]),
            1 => template(&[r#"{"A":{"permutation":[1,0],"orientationDelta":["#, r#",1]}}"#], &[hole(m)]),
            2 => template(&[r#"{"A":{"permutation":[1,0],"orientationDelta":[0,1]"#, r#"}"#], &[hole(m)]),
            3 => template(&[r#"{"A":"#, r#"{"permutation":[1,0],"orientationDelta":[0,1]}}"#], &[hole(m)]),
            4 => template(&[r#"{"A":["#, r#",0],[2,1]]}"#], &[hole(m)]),
            _ => template(&[r#"{"A":{"orientationDelta":[25"#, r#",0],"permutation":[0,1],"more":[]}}"#], &[hole(m)]),
        };
        let want = serde_json::from_slice::<Value>(&t).ok().and_then(|v| t_of_json(&v, &os));
        match KTransformation::try_from_json(&k, &t) {
            Ok(a) => {
                cover(1);
                match want {
                    None => check!(1816 "JSON that is no transformation is refused", false),
                    Some(w) => check!(1817 "a transformation is what its JSON says", eq_t(&get_t(&a), &w)),
                }
            }
            Err(e) => {
                cover(2);
                check!(1818 "JSON that is a transformation is accepted", want.is_none());
                check!(1819 "JSON that is no transformation is reported as such", is_t_err(&e));
            }
        }
    }
    fn h_json_q_template() {
        let os = [orbit("A", 2, 6)];
        let k = puzzle(&os);
        let m = if thorough() { 3 } else { 2 };
        let t = match pick(6) {
            0 => template(&[r#"{"A":{"pieces":[1,"#, r#"],"orientation":[0,0]}}"#], &[hole(m)]),
            1 => template(&[r#"{"A":{"pieces":[1,0],"orientation":["#, r#",1]}}"#], &[hole(m)]),
            2 => template(&[r#"{"A":{"pieces":[1,1],"orientation":[0,1],"orientationMod":["#, r#"]}}"#], &[hole(m)]),
            3 => template(&[r#"{"A":{"pieces":[0,25"#, r#"],"orientation":[0,1],"orientationMod":null}}"#], &[hole(m)]),
            4 => template(&[r#"{"A":[[1,2],[2,1],["#, r#",2]]}"#], &[hole(m)]),
            _ => template(&[r#"{"A":{"orientationMod":[2,3],"orientation":["#, r#"],"pieces":[0,1],"more":[]}}"#], &[hole(m)]),
        };
        let want = serde_json::from_slice::<Value>(&t).ok().and_then(|v| q_of_json(&v, &os));
        match KPattern::try_from_json(&k, &t) {
            Ok(a) => {
                cover(1);
                match want {
                    None => check!(1820 "JSON that is no pattern is refused", false),
                    Some(w) => check!(1821 "a pattern is what its JSON says", eq_q(&get_q(&a), &w, &os)),
                }
            }
            Err(e) => {
                cover(2);
                check!(1822 "JSON that is a pattern is accepted", want.is_none());
                check!(1823 "JSON that is no pattern is reported as such", is_q_err(&e));
            }
        }
    }
    fn h_json_d_template() {
        let m = if thorough() { 3 } else { 2 };
        let (mut a, mut b, mut c): (Vec<u8>, Vec<u8>, Vec<u8>) = (b"2".to_vec(), b"3".to_vec(), b"0".to_vec());
        match pick(3) {
            0 => a = hole(m),
            1 => {
                // (any number of orientations, each on a path of its own)
                b = dec(fix(any_u8() as u64) as u8).into_bytes();
                let x = any_u8();
                assume((x.wrapping_sub(b'0') > 9) & (x != b'.') & (x != b'e') & (x != b'E'));
                match pick(3) {
                    0 => {}
                    1 => b.push(x),
                    _ => b.insert(0, x),
                }
            }
            _ => c = hole(m),
        }
        let t = template(&[r#"{"name":"p","orbits":[{"orbitName":"A","numPieces":"#, r#","numOrientations":"#, r#"}],"defaultPattern":{},"moves":{"R2'":{"A":{"permutation":[1,0],"orientationDelta":[2,"#, r#"]}}}}"#], &[a, b, c]);
        let want = serde_json::from_slice::<Value>(&t).ok().and_then(|v| {
            let o = v.get("orbits")?.as_array()?;
            if o.len() != 1 { return None; }
            let (p, n) = (o[0].get("numPieces")?.as_u64()?, o[0].get("numOrientations")?.as_u64()?);
            if p > 255 || n > 107 || n == 0 { return None; }
            let os = [Orbit { name: "A", p: p as u8, n: n as u8 }];
            let t = t_of_json(v.get("moves")?.get("R2'")?, &os)?;
            Some((os, t))
        });
        match KPuzzle::try_from_json(&t) {
            Ok(k) => {
                cover(1);
                match want {
                    None => check!(1824 "JSON that is no definition is refused", false),
                    Some((os, w)) => {
                        let i = k.orbit_info_iter().next().unwrap();
                        check!(1825 "a puzzle is what its JSON says", (i.num_pieces == os[0].p) & (i.num_orientations == os[0].n));
                        match k.transformation_from_move(&r::to_move(&N::Move(Pre::No, b"R".to_vec(), -2))) {
                            Err(_) => check!(1826 "a move of a puzzle from JSON is found", false),
                            Ok(x) => check!(1827 "a move of a puzzle from JSON is what the JSON says", eq_t(&get_t(&x), &w)),
                        }
                    }
                }
            }
            Err(e) => {
                cover(2);
                check!(1828 "JSON that is a definition is accepted", want.is_none());
                check!(1829 "an error says something", !e.to_string().is_empty());
            }
        }
    }
    fn h_json_short() {
        // any short bytes as JSON
        let t = hole(if thorough() { 4 } else { 3 });
        let os: &[Orbit] = if pick(2) == 0 { &[orbit("A", 1, 1)] } else { &[] };
        let k = puzzle(os);
        let v = serde_json::from_slice::<Value>(&t).ok();
        let empty = os.is_empty() && matches!(&v, Some(Value::Object(m)) if m.is_empty());
        match KTransformation::try_from_json(&k, &t) {
            Ok(_) => {
                cover(1);
                check!(1830 "short JSON is only a transformation of a puzzle without orbits", empty)
            }
            Err(e) => {
                cover(2);
                check!(1831 "bad JSON of a transformation is reported as such", is_t_err(&e) && !empty)
            }
        }
        match KPattern::try_from_json(&k, &t) {
            Ok(_) => check!(1832 "short JSON is only a pattern of a puzzle without orbits", empty),
            Err(e) => check!(1833 "bad JSON of a pattern is reported as such", is_q_err(&e) && !empty),
        }
        check!(1834 "short JSON is no definition", KPuzzle::try_from_json(&t).is_err());
    }
    fn h_json_mutated() {
        // one byte of a JSON text replaced, inserted or missing
        let os = [orbit("A", 2, 3)];
        let k = puzzle(&os);
        let which = pick(2);
        let mut t = [r#"{"A":{"permutation":[1,0],"orientationDelta":[2,0]}}"#, r#"{"A":{"pieces":[1,0],"orientation":[2,0],"orientationMod":[0,3]}}"#][which].as_bytes().to_vec();
        let at = pick(t.len() + 1);
        let b = any_u8();
        assume((b < 128) & (b != b'.') & (b != b'e') & (b != b'E'));
        // (what is hashed is on paths of its own)
        let b = if at == 2 || at == 3 { fix(b as u64) as u8 } else { b };
        match pick(3) {
            0 => t.insert(at, b),
            1 => {
                assume(at < t.len());
                t[at] = b;
            }
            _ => {
                assume((at < t.len()) & (b == 0));
                t.remove(at);
            }
        }
        let v = serde_json::from_slice::<Value>(&t).ok();
        if which == 0 {
            let want = v.and_then(|v| t_of_json(&v, &os));
            match (KTransformation::try_from_json(&k, &t), want) {
                (Ok(a), Some(w)) => { cover(1); check!(1835 "a transformation is what its JSON says", eq_t(&get_t(&a), &w)) }
                (Err(e), None) => { cover(2); check!(1836 "JSON that is no transformation is reported as such", is_t_err(&e)) }
                _ => check!(1837 "JSON is accepted exactly when it is a transformation", false),
            }
        } else {
            let want = v.and_then(|v| q_of_json(&v, &os));
            match (KPattern::try_from_json(&k, &t), want) {
                (Ok(a), Some(w)) => { cover(3); check!(1838 "a pattern is what its JSON says", eq_q(&get_q(&a), &w, &os)) }
                (Err(e), None) => { cover(4); check!(1839 "JSON that is no pattern is reported as such", is_q_err(&e)) }
                _ => check!(1840 "JSON is accepted exactly when it is a pattern", false),
            }
        }
    }
    fn h_error_chain() {
        // errors can be told and traced, whatever their cause
        let os = [orbit("A", 1, 2)];
        let k = puzzle(&os);
        let t = match pick(3) {
            0 => {
                let c = any_u8();
                assume(((c | 32).wrapping_sub(b'a') < 26) | (c == b'_'));
                String::from_utf8(vec![c]).unwrap()
            }
            1 => "R'3".to_owned(),
            _ => "(R".to_owned(),
        };
        let e: InvalidAlgError = match t.parse::<Alg>() {
            Err(e) => { cover(1); e.into() }
            Ok(a) => match k.transformation_from_alg(&a) {
                Ok(_) => { return check!(1841 "a move that does not exist is refused", false); }
                Err(e) => { cover(2); e }
            },
        };
        check!(1842 "an error says something", !e.to_string().is_empty());
        let mut n = 0;
        let mut s: Option<&dyn Error> = e.source();
        while let Some(x) = s {
            n += 1;
            if n > 8 {
                break;
            }
            s = x.source();
        }
        check!(1843 "the causes of an error end", n <= 8);
        let c: ConversionError = e.into();
        check!(1844 "a converted error says something", !c.to_string().is_empty());
        check!(1845 "a converted error keeps its kind", matches!(c, ConversionError::InvalidAlg(_)));
    }
    fn h_bad_names() {
        // errors about orbits and puzzles with any kind of name
        let c = ["n", "\u{e9}", "\u{2192}", "\u{1f9e9}", "\u{130}"][pick(5)];
        let t: &'static str = Box::leak(["", "x", "yz", "\"\n"][pick(4)].to_owned().into_boxed_str());
        let long: &'static str = Box::leak((t.to_owned() + &c.repeat([1, 5, 12, 40][pick(4)])).into_boxed_str());
        let os = [orbit(long, 2, 4), orbit("B", 1, 2)];
        let mut d = def(&os, vec![], None);
        d.name = long.to_owned();
        let mut errors: Vec<String> = vec![];
        let what = pick(8);
        match what {
            0 => d.orbits[0].num_orientations = [0, 108, 255][pick(3)],
            1 => { d.moves.insert(r::to_move(&r::N::Move(r::Pre::No, b"R".to_vec(), 1)), KTransformationData::new()); }
            _ => {}
        }
        match KPuzzle::try_new(d) {
            Err(e) => errors.push(e.to_string()),
            Ok(k) => {
                check!(1851 "a definition with too few or too many orientations is refused whatever its names", what != 0);
                let (mut a, mut q) = (t_data(&os, &ids(&os)), q_data(&os, &solved(&os)));
                let (x, y) = (a.get_mut(&name(long)).unwrap(), q.get_mut(&name(long)).unwrap());
                match what {
                    2 => {
                        x.permutation[1] = x.permutation[0];
                        y.orientation_mod = Some(vec![3, 0]);
                    }
                    3 => {
                        x.orientation_delta[0] = 4;
                        y.orientation[1] = 4;
                    }
                    4 => {
                        x.permutation.pop();
                        y.pieces.pop();
                    }
                    5 => {
                        a.remove(&name(long));
                        q.remove(&name(long));
                    }
                    _ => {}
                }
                let (x, y) = (KTransformation::try_from_data(&k, &a), KPattern::try_from_data(&k, &q));
                if (2..6).contains(&what) {
                    check!(1852 "bad data is refused whatever the names", x.is_err() && y.is_err());
                } else {
                    check!(1853 "good data is accepted whatever the names", matches!(&x, Ok(x) if eq_t(&get_t(x), &ids(&os))) && y.is_ok());
                    if let (Ok(x), Ok(y)) = (&x, &y) {
                        observe(format!("{:?} {:?} {:?}", x, y, k).is_empty() as u64);
                    }
                }
                errors.extend(x.err().map(|e| e.to_string()));
                errors.extend(y.err().map(|e| e.to_string()));
            }
        }
        cover(1);
        for e in errors {
            check!(1855 "an error says something whatever the names", !e.is_empty());
        }
    }
}
