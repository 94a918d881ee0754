// Shared by the symbolic execution and the replay.  arg(k): a chosen number; nd(k), big(k): the k-th unknown.
fn nb() -> usize { arg(0) }
fn big(k: u32) -> BigInt { let mut b = [0u8; 32]; let mut i = 0; while i < nb() { b[i] = ndb(100 * k + i as u32); i += 1; } BigInt::from_bytes_le(Sign::Plus, &b) }
fn lc(ids: u32, n: usize, v: u32) -> HashMap<usize, BigInt> {
    let mut m = HashMap::new();
    let mut i = 0;
    while i < n { m.insert(nd(ids + i as u32) as usize, big(v + i as u32)); i += 1; }
    m
}
fn eqm(a: &HashMap<usize, BigInt>, b: &HashMap<usize, BigInt>, ids: u32, n: usize) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < n { let k = nd(ids + i as u32) as usize; match (a.get(&k), b.get(&k)) { (Some(x), Some(y)) => if x != y { return false; }, _ => return false } i += 1; }
    true
}
fn hdr(field: BigInt, w: usize, o: usize, i: usize, p: usize, l: usize, c: usize) -> writer::HeaderData {
    writer::HeaderData { field, total_wires: w, public_outputs: o, public_inputs: i, private_inputs: p, number_of_labels: l, number_of_constraints: c }
}
fn ok<T, E>(r: Result<T, E>) -> T { match r { Ok(x) => x, Err(_) => { same!(false, "an operation reports an error"); loop {} } } }
type C = (HashMap<usize, BigInt>, HashMap<usize, BigInt>, HashMap<usize, BigInt>);
type G = (writer::CustomGatesUsedData, writer::CustomGatesAppliedData);

/// a whole file; late: the header after the constraints
fn write(h: writer::HeaderData, cs: &Vec<C>, ns: usize, late: bool, gates: Option<G>) {
    let mut w = ok(writer::R1CSWriter::new(path_(), nb(), gates.is_some()));
    if late { w = body(w, cs); w = header(w, h); } else { w = header(w, h); w = body(w, cs); }
    let mut s = ok(writer::R1CSWriter::start_signal_section(w));
    let mut i = 0;
    while i < ns { ok(s.write_signal_usize(nd(60 + i as u32) as usize)); i += 1; }
    w = ok(s.end_section());
    if let Some((used, applied)) = gates {
        let mut s = ok(writer::R1CSWriter::start_custom_gates_used_section(w));
        ok(s.write_custom_gates_usages(used));
        let w = ok(s.end_section());
        let mut s = ok(writer::R1CSWriter::start_custom_gates_applied_section(w));
        ok(s.write_custom_gates_applications(applied));
        let w = ok(s.end_section());
        ok(writer::R1CSWriter::finish_writing(w));
    } else {
        ok(writer::R1CSWriter::finish_writing(w));
    }
}
fn header(w: writer::R1CSWriter, h: writer::HeaderData) -> writer::R1CSWriter {
    let mut s = ok(writer::R1CSWriter::start_header_section(w));
    ok(s.write_section(h));
    ok(s.end_section())
}
fn body(w: writer::R1CSWriter, cs: &Vec<C>) -> writer::R1CSWriter {
    let mut s = ok(writer::R1CSWriter::start_constraints_section(w));
    let mut i = 0;
    while i < cs.len() { ok(s.write_constraint_usize(&cs[i].0, &cs[i].1, &cs[i].2)); i += 1; }
    same!(s.constraints_written() == cs.len(), "the count of written constraints");
    ok(s.end_section())
}

fn scenario(which: u32) { if which == 0 { header_fields() } else if which == 1 { whole() } else { large() } }

/// arg 1 constraints, the first with arg 2 terms in A and arg 3 terms in C, the others with one; arg 5 wires; known wires, two unknown coefficients
fn term(i: usize, n: usize) -> BigInt { if i == 0 || i + 1 == n { big((i > 0) as u32) } else { BigInt::from(7 + 3 * i as u64) } }
fn wide(n: usize) -> HashMap<usize, BigInt> { let mut m = HashMap::new(); let mut i = 0; while i < n { m.insert(1 + i, term(i, n)); i += 1; } m }
fn eqw(a: &HashMap<usize, BigInt>, n: usize) -> bool {
    if a.len() != n { return false; }
    let mut i = 0;
    while i < n { match a.get(&(1 + i)) { Some(x) => if *x != term(i, n) { return false; }, _ => return false } i += 1; }
    true
}
fn large() {
    let (n, ns) = (arg(1), arg(5));
    let size = |i: usize, k: u32| if i == 0 { arg(k) } else { 1 };
    let mut w = ok(writer::R1CSWriter::new(path_(), nb(), false));
    w = header(w, hdr(big(2), ns, 1, 2, 3, ns, n));
    let mut s = ok(writer::R1CSWriter::start_constraints_section(w));
    let mut i = 0;
    while i < n { ok(s.write_constraint_usize(&wide(size(i, 2)), &wide(1), &wide(size(i, 3)))); i += 1; }
    same!(s.constraints_written() == n, "the count of written constraints");
    w = ok(s.end_section());
    let mut s = ok(writer::R1CSWriter::start_signal_section(w));
    let mut i = 0;
    while i < ns { ok(s.write_signal_usize(if i + 1 == ns { nd(60) as usize } else { 2 * i })); i += 1; }
    ok(writer::R1CSWriter::finish_writing(ok(s.end_section())));
    let d = ok(reader::read_all(path_()));
    let h = d.header();
    same!(h.field == big(2) && h.field_size == nb(), "the prime");
    same!(h.total_wires == ns && h.number_of_constraints == n && h.number_of_labels == ns, "the numbers of wires and constraints");
    same!(d.n_constraints() == n, "the number of constraints read");
    let mut i = 0;
    while i < n {
        let (a, b, c) = d.constraint(i);
        same!(eqw(a, size(i, 2)), "the part A of a constraint");
        same!(eqw(b, 1), "the part B of a constraint");
        same!(eqw(c, size(i, 3)), "the part C of a constraint");
        i += 1;
    }
    same!(d.n_signals() == ns, "the number of wires read");
    let mut i = 0;
    while i < ns { same!(d.signal(i) == if i + 1 == ns { nd(60) as usize } else { 2 * i }, "the wire map"); i += 1; }
}

/// every header, the section read by itself
fn header_fields() {
    let (field, w, o, i, p, l, c) = (big(0), nd(0), nd(1), nd(2), nd(3), nd(4), nd(5));
    let wr = ok(writer::R1CSWriter::new(path_(), nb(), false));
    let wr = header(wr, hdr(big(0), w as usize, o as usize, i as usize, p as usize, l as usize, c as usize));
    ok(writer::R1CSWriter::finish_writing(wr));
    let r = reader::header_at_start(path_());
    same!(r.field == field, "the prime");
    same!(r.field_size == nb(), "the field size");
    same!(r.total_wires == w as usize, "the number of wires");
    same!(r.public_outputs == o as usize, "the number of outputs");
    same!(r.public_inputs == i as usize, "the number of public inputs");
    same!(r.private_inputs == p as usize, "the number of private inputs");
    same!(r.number_of_labels == l as usize, "the number of labels");
    same!(r.number_of_constraints == c as usize, "the number of constraints");
}

/// a whole file: arg 1 constraints with arg 2..4 terms in A, B, C (rotated from one constraint to the next), arg 5 wires, arg 6 header after the
/// constraints, arg 7 gates in use (0: no gates sections, else one more) with arg 8 characters and arg 9 parameters, arg 10 applications of arg 11 signals
fn whole() {
    let (n, t, ns) = (arg(1), [arg(2), arg(3), arg(4)], arg(5));
    let mut cs: Vec<C> = Vec::new();
    let mut i = 0;
    while i < n {
        let j = 10 * i as u32;
        cs.push((lc(j, t[i % 3], j), lc(j + 3, t[(i + 1) % 3], j + 3), lc(j + 6, t[(i + 2) % 3], j + 6)));
        i += 1;
    }
    let mut gates = None;
    if arg(7) > 0 {
        let mut used = Vec::new();
        let mut i = 0;
        while i < arg(7) - 1 {
            let mut ps = Vec::new();
            let mut j = 0;
            while j < arg(9) { ps.push(big(40 + j as u32 + 3 * i as u32)); j += 1; }
            let nm = [ndb(9000 + 10 * i as u32), ndb(9001 + 10 * i as u32), ndb(9002 + 10 * i as u32)];
            used.push((name_(&nm[..arg(8)]), ps));
            i += 1;
        }
        let mut applied = Vec::new();
        let mut i = 0;
        while i < arg(10) {
            let mut ss = Vec::new();
            let mut j = 0;
            while j < arg(11) { ss.push(nd(80 + j as u32 + 4 * i as u32) as usize); j += 1; }
            applied.push((nd(70 + i as u32) as usize, ss));
            i += 1;
        }
        gates = Some((used, applied));
    }
    write(hdr(big(50), ns, nd(91) as usize, nd(92) as usize, nd(93) as usize, nd(94) as usize, n), &cs, ns, arg(6) > 0, gates);
    let d = ok(reader::read_all(path_()));
    let h = d.header();
    same!(h.field == big(50) && h.field_size == nb(), "the prime");
    same!(h.total_wires == ns && h.number_of_constraints == n, "the numbers of wires and constraints");
    same!(h.public_outputs == nd(91) as usize && h.public_inputs == nd(92) as usize && h.private_inputs == nd(93) as usize && h.number_of_labels == nd(94) as usize, "the counts");
    same!(d.n_constraints() == n, "the number of constraints read");
    let mut i = 0;
    while i < n {
        let (a, b, c) = d.constraint(i);
        let j = 10 * i as u32;
        same!(eqm(&cs[i].0, a, j, t[i % 3]), "the part A of a constraint");
        same!(eqm(&cs[i].1, b, j + 3, t[(i + 1) % 3]), "the part B of a constraint");
        same!(eqm(&cs[i].2, c, j + 6, t[(i + 2) % 3]), "the part C of a constraint");
        i += 1;
    }
    same!(d.n_signals() == ns, "the number of wires read");
    let mut i = 0;
    while i < ns { same!(d.signal(i) == nd(60 + i as u32) as usize, "the wire map"); i += 1; }
    same!(d.has_gates() == (arg(7) > 0), "presence of the gates sections");
    if arg(7) == 0 { return; }
    let (u, a) = d.gates();
    same!(u.len() == arg(7) - 1 && a.len() == arg(10), "the number of gates");
    let mut i = 0;
    while i < u.len() {
        let s = u[i].0.as_bytes();
        same!(s.len() == arg(8), "the length of a name");
        let mut j = 0;
        while j < s.len() { same!(s[j] == ndb(9000 + 10 * i as u32 + j as u32), "the name of a gate"); j += 1; }
        same!(u[i].1.len() == arg(9), "the number of parameters");
        let mut j = 0;
        while j < arg(9) { same!(u[i].1[j] == big(40 + j as u32 + 3 * i as u32), "a parameter"); j += 1; }
        i += 1;
    }
    let mut i = 0;
    while i < a.len() {
        same!(a[i].0 == nd(70 + i as u32) as usize && a[i].1.len() == arg(11), "an application");
        let mut j = 0;
        while j < arg(11) { same!(a[i].1[j] == nd(80 + j as u32 + 4 * i as u32) as usize, "a signal of an application"); j += 1; }
        i += 1;
    }
}
