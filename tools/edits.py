#!/usr/bin/env python3
"""Edits that keep the behaviour: applied together to a scratch copy, all checks
must stay quiet.   tools/edits.py [ID...]    (checks to run; default: all)"""
import os, shutil, sys
sys.argv, ARGS = [sys.argv[0], "none", "-"], sys.argv[1:]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.dirname(os.path.abspath(__file__)) + "/plant.py").read().replace("\nmain()", "\n").replace("/tmp/plant", "/tmp/edits")
exec(compile(src, "plant.py", "exec"))

A = "src/arithmetic/"
S = "src/spacegroups/"
EDITS = [
# arithmetic
(A+"linear_algebra.rs", """    while !a_next.is_zero() {
        let q = a / a_next;
        (a, a_next) = (a_next, a - q * a_next);
        (r, r_next) = (r_next, r - q * r_next);
        (s, s_next) = (s_next, s - q * s_next);
    }

    (a, r, s, r_next, s_next)""", """    loop {
        if a_next.is_zero() {
            return (a, r, s, r_next, s_next);
        }
        let quotient = a / a_next;
        let (a_tmp, r_tmp, s_tmp) = (a_next, r_next, s_next);
        a_next = a - quotient * a_next;
        r_next = r - quotient * r_next;
        s_next = s - quotient * s_next;
        a = a_tmp;
        r = r_tmp;
        s = s_tmp;
    }"""),
(A+"linear_algebra.rs", """                &self[(0, 0)] * &self[(1, 1)] * &self[(2, 2)] +
                &self[(0, 1)] * &self[(1, 2)] * &self[(2, 0)] +
                &self[(0, 2)] * &self[(1, 0)] * &self[(2, 1)] -
                &self[(0, 2)] * &self[(1, 1)] * &self[(2, 0)] -
                &self[(0, 0)] * &self[(1, 2)] * &self[(2, 1)] -
                &self[(0, 1)] * &self[(1, 0)] * &self[(2, 2)]""", """                // cyclic, then anticyclic products
                let m = |i, j| &self[(i, j)];
                m(0, 1) * m(1, 2) * m(2, 0) -
                m(0, 2) * m(1, 1) * m(2, 0) +
                m(0, 0) * m(1, 1) * m(2, 2) -
                m(0, 0) * m(1, 2) * m(2, 1) +
                m(0, 2) * m(1, 0) * m(2, 1) -
                m(0, 1) * m(1, 0) * m(2, 2)"""),
(A+"linear_algebra.rs", """    fn rank(&self) -> usize {
        let (nrows, _) = self.shape();

        let mut basis = vec![];
        for i in 0..nrows {
            extend_basis(&self.get_row(i), &mut basis);
        }
        basis.len()""", """    fn rank(&self) -> usize {
        let mut basis = vec![];
        for row in self.get_rows().iter() {
            extend_basis(row, &mut basis);
        }
        basis.len()"""),
(A+"linear_algebra.rs", """            } else if col == col_b {
                Scalar::clear_column(col, &mut v, &mut b);
            }""", """            }
            if col_b == col {
                Scalar::clear_column(col, &mut v, &mut b);
            }"""),
(A+"modular_solver.rs", """    let row_i = std::mem::take(&mut a[i]);
    let row_j = std::mem::take(&mut a[j]);
    a[i] = row_j;
    a[j] = row_i;""", """    a.swap(i, j);"""),
(A+"modular_solver.rs", """                .map(|i| (row[i] * b[i][j]) % prime)
                .reduce(|p, q| (p + q) % prime)
                .unwrap();""", """                .fold(0, |p, i| (p + (row[i] * b[i][j]) % prime) % prime);"""),
(A+"modular_solver.rs", """        let mut row_out = vec![];
        for j in 0..ncols_b {
            let p = (0..ncols_a).map(|i| row[i] * b[i][j]).sum();
            row_out.push(p);
        }
        product.push(row_out);""", """        let mut row_out = vec![0; ncols_b];
        for i in 0..ncols_a {
            for (j, x) in b[i].iter().enumerate() {
                row_out[j] += row[i] * x;
            }
        }
        product.push(row_out);"""),
(A+"matrices.rs", """        let data: Vec<_> = (0..ncols)
            .flat_map(|j| (0..nrows).map(move |i| self[(i, j)].clone()))
            .collect();

        Matrix::new(nrows, &data)""", """        let mut data = Vec::with_capacity(nrows * ncols);
        for j in 0..ncols {
            data.extend(self.get_col(j));
        }

        Matrix::new(nrows, &data)"""),
(A+"matrices.rs", """        for i in 0..nrows {
            for j in 0..ncols {
                if j == i {
                    if !self[(i, j)].is_one() {
                        return false;
                    }
                } else {
                    if !self[(i, j)].is_zero() {
                        return false;
                    }
                }
            }
        }
        true""", """        (0..nrows).all(|i| (0..ncols).all(|j| {
            let x = &self[(i, j)];
            if i == j { x.is_one() } else { x.is_zero() }
        }))"""),
(A+"geometry.rs", """        let mut t = T::zero();
        for i in 0..u.dim() {
            for j in 0..u.dim() {
                t += &u[i] * &self[(i, j)] * &v[j];
            }
        }
        t""", """        let mut t = T::zero();
        for j in (0..u.dim()).rev() {
            for i in (0..u.dim()).rev() {
                t += &u[i] * &self[(i, j)] * &v[j];
            }
        }
        t"""),
(A+"geometry.rs", """        for i in 1..=coeffs.shape().0 {
            assert!(coeffs.submatrix(0..i, 0..i).determinant() > T::zero());
        }
""", """        let n = coeffs.shape().0;
        let minor = |i| coeffs.submatrix(0..i, 0..i).determinant();
        assert!((1..=n).rev().all(|i| minor(i) > T::zero()));
"""),
(A+"geometry.rs", """        if let Some(a) = self.linear_coeffs.inverse() {
            let s = Vector::new(&(&a * &self.shift.coords).data);
            Some(AffineMap::new(&a, &-s))
        } else {
            None
        }""", """        let a = self.linear_coeffs.inverse()?;
        let s = Vector::from(&a * &self.shift.coords);
        Some(AffineMap::new(&a, &-s))"""),
# partitions
("src/partitions.rs", """        while x != root {
            let t = x;
            x = self.parent[x];
            self.parent[t] = root;
        }
""", """        while self.parent[x] != root {
            let next = self.parent[x];
            self.parent[x] = root;
            x = next;
        }
"""),
("src/partitions.rs", """            if rx < ry {
                self.parent[x] = y;
            } else {
                if rx == ry {
                    self.rank[x] = rx + 1;
                }
                self.parent[y] = x;
            }""", """            if rx <= ry {
                self.parent[x] = y;
                self.rank[y] = ry.max(rx + 1);
            } else {
                self.parent[y] = x;
            }"""),
# graphs
("src/pgraphs.rs", """                for e in [e.clone(), -e] {
                    if !incidences.contains_key(&e.head) {
                        incidences.insert(e.head, vec![]);
                    }
                    incidences.get_mut(&e.head).unwrap().push(
                        Edge::new(e.head, e.tail, e.shift)
                    );
                }""", """                incidences.entry(e.head).or_insert_with(Vec::new).push(e.clone());
                incidences.entry(e.tail).or_insert_with(Vec::new).push(-e);"""),
("src/pgraphs.rs", """            if seen.contains(&p) {
                return false;
            } else {
                seen.insert(p);
            }
        }
        true""", """            if !seen.insert(p) {
                return false;
            }
        }
        true"""),
("src/pgraphs.rs", """        for (vertex, shift) in &self.this_shell {
            for e in self.graph.incidences(&vertex) {
                let w = (e.tail, e.shift + *shift);

                if !self.last_shell.contains(&w) &&
                    !self.this_shell.contains(&w)
                {
                    next_shell.insert(w);
                }
            }
        }
""", """        for (vertex, shift) in self.this_shell.iter() {
            next_shell.extend(
                self.graph.incidences(vertex).iter().map(|e| (e.tail, *shift + e.shift))
            );
        }
        next_shell.retain(|w| !self.this_shell.contains(w) && !self.last_shell.contains(w));
"""),
("src/pgraphs.rs", """    let multiplicity = if rank == T::dim() {
        let mut d: i128 = 1;
        for i in 0..basis.len() {
            d *= basis[i][i];
        }
        Some(i32::try_from(d.abs()).expect("multiplicity out of range"))
    } else {
        None
    };
""", """    let multiplicity = (rank == T::dim()).then(||
        i32::try_from((0..rank).map(|i| basis[i][i].abs()).product::<i128>())
            .expect("multiplicity out of range")
    );
"""),
("src/pgraphs.rs", """        for phi in self.symmetries() {
            for v in self.vertices() {
                p.unite(&v, &phi.vertex_map.get(&v).unwrap())
            }
        }
""", """        let vertices = self.vertices();
        for phi in self.symmetries().iter().rev() {
            for v in &vertices {
                p.unite(&phi.vertex_map[v], v);
            }
        }
"""),
("src/pgraphs.rs", """    let mut a = vec![vec![0 as i64; n]; n];
    let mut t = vec![vec![0 as i64; d]; n];
    a[0][0] = 1;

    for i in 1..n {
        for ngb in g.incidences(&verts[i]) {""", """    let mut t = vec![vec![0 as i64; d]; n];
    let mut a = vec![vec![0 as i64; n]; n];
    a[0][0] = 1;

    for i in (1..n).rev() {
        for ngb in g.incidences(&verts[i]).into_iter().rev() {"""),
# symmetries
("src/symmetries.rs", """    translational_orbits(&graph)[0].len() == 1
}""", """    first_orbit_is_single(graph)
}


fn first_orbit_is_single<T, CS>(graph: &Graph<T, CS>) -> bool
    where
        T: LabelVector<CS>,
        CS: Clone + Eq + Hash + Ord
{
    match translational_orbits(graph).first() {
        Some(orbit) => orbit.len() == 1,
        None => panic!("graph has no vertices"),
    }
}"""),
("src/symmetries.rs", """        match vertex_map.get(&vsrc) {
            Some(&w) if w != vimg => return None,
            None => {
                vertex_map.insert(vsrc, vimg);
                for esrc in graph.incidences(&vsrc) {
                    let dsrc = graph.edge_vector(&esrc);
                    let dimg = transform * &dsrc;

                    match graph.edge_by_unique_delta(&vimg, &dimg) {
                        None => return None,
                        Some(eimg) => {
                            queue.push_back((esrc.tail, eimg.tail));
                            edge_map.insert(esrc, eimg);
                        }
                    };
                }
            },
            _ => {},
        };
""", """        if let Some(&w) = vertex_map.get(&vsrc) {
            if w != vimg {
                return None;
            }
            continue;
        }

        vertex_map.insert(vsrc, vimg);
        for esrc in graph.incidences(&vsrc).into_iter().rev() {
            let dimg = transform * &graph.edge_vector(&esrc);
            let eimg = graph.edge_by_unique_delta(&vimg, &dimg)?;

            queue.push_front((esrc.tail, eimg.tail));
            edge_map.insert(esrc, eimg);
        }
"""),
("src/symmetries.rs", """    while let Some(phi) = queue.pop_front() {
        for psi in gens {
            let product = &phi * psi;
            if !result.contains(&product) {
                queue.push_back(product.clone());
                result.insert(product);
            }
        }
    }""", """    while let Some(phi) = queue.pop_back() {
        for psi in gens.iter() {
            let product = psi * &phi;
            if result.insert(product.clone()) {
                queue.push_back(product);
            }
        }
    }"""),
# space groups
(S+"lattices.rs", """    while proceed {
        proceed = false;

        for v in vs {""", """    while proceed {
        proceed = false;

        for v in vs.iter().rev() {"""),
(S+"lattices.rs", """    loop {
        let mut changed = false;

        for i in 0..3 {
            for j in (i + 1)..4 {
                if &dot(&vs[i], &vs[j]) > epsilon {
                    for k in 0..4 {
                        if k != i && k != j {
                            vs[k] = add(&vs[k], &vs[i]);
                        }
                    }
                    vs[i] = neg(&vs[i]);
                    changed = true;
                }
            }
        }

        if !changed {
            break;
        }
    }
""", """    let pairs = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
    while let Some((i, j)) = pairs.iter().copied()
        .find(|&(i, j)| &dot(&vs[i], &vs[j]) > epsilon)
    {
        for k in (0..4).filter(|&k| k != i && k != j) {
            vs[k] = add(&vs[i], &vs[k]);
        }
        vs[i] = neg(&vs[i]);
    }
"""),
(S+"lattices.rs", """            common_denom *= x.denom() / common_denom.gcd(x.denom());""", """            common_denom = common_denom.lcm(x.denom());"""),
(S+"lattices.rs", """    match n {
        0 | 1 => basis.to_vec(),
        2 => {
            let (u, v) = lagrange_reduced(&basis[0], &basis[1], dot, epsilon);
            let w = add(&u, &v);
            vec![u, v, w]
        }""", """    match n {
        0 | 1 => basis.to_vec(),
        2 => {
            let (u, v) = lagrange_reduced(&basis[1], &basis[0], dot, epsilon);
            let w = add(&v, &u);
            vec![v, u, w]
        }"""),
(S+"basics.rs", """    while i < result.len() {
        let a = result[i].clone();
        i += 1;

        for b in gens {
            let ab = (&a * b).mod_z();
            if !seen.contains(&ab) {
                seen.insert(ab.clone());
                result.push(ab);
            }
        }
    }
""", """    while let Some(a) = result.get(i).cloned() {
        i += 1;
        let products: Vec<_> = gens.iter().rev().map(|b| (b * &a).mod_z()).collect();
        for ab in products {
            if seen.insert(ab.clone()) {
                result.push(ab);
            }
        }
    }
"""),
(S+"basics.rs", """        for ia in 0..dim {
            for ib in ia..dim {
                let mut eqn""", """        for ib in 0..dim {
            for ia in 0..=ib {
                let mut eqn"""),
(S+"basics.rs", """        for row in (op.linear_matrix() - &id).get_rows() {
            extend_basis(&row, &mut eqns);
        }""", """        let m = op.linear_matrix() - &id;
        (0..dim).rev().for_each(|i| extend_basis(&m.get_row(i), &mut eqns));"""),
(S+"parse_operator.rs", """    alt((
        map_opt(
            separated_pair(unsigned_fraction, char('*'), axis),
            |(q, a)| Some((q, a))
        ),
        map_opt(
            separated_pair(unsigned_fraction, space0, axis),
            |(q, a)| Some((q, a))
        ),
        map_opt(unsigned_fraction, |q| Some((q, Axis::None))),
        map_opt(axis, |a| Some((Ratio::from_integer(1), a))),
    ))(input)""", """    alt((
        map_opt(axis, |a| Some((Ratio::from_integer(1), a))),
        separated_pair(unsigned_fraction, space0, axis),
        separated_pair(unsigned_fraction, char('*'), axis),
        map_opt(unsigned_fraction, |q| Some((q, Axis::None))),
    ))(input)"""),
(S+"parse_operator.rs", """    for (q, a) in iter::once(first).chain(rest) {
        match a {
            Axis::X => row[0] = q.checked_add(&row[0])?,
            Axis::Y => row[1] = q.checked_add(&row[1])?,
            Axis::Z => row[2] = q.checked_add(&row[2])?,
            Axis::None => shift = q.checked_add(&shift)?,
        }
    }
""", """    for (q, a) in iter::once(first).chain(rest) {
        let slot = match a {
            Axis::X => &mut row[0],
            Axis::Y => &mut row[1],
            Axis::Z => &mut row[2],
            Axis::None => &mut shift,
        };
        *slot = slot.checked_add(&q)?;
    }
"""),
(S+"parse_table.rs", """            if k > 0 && val.is_positive() {
                write!(f, "+")?;
            } else if val.is_negative() {
                write!(f, "-")?;
            }
            if axis.is_empty() || !val.abs().is_one() {
                write!(f, "{}", val.abs())?;
            }
            write!(f, "{}", axis)?;""", """            let sign = match (k, val.is_negative()) {
                (_, true) => "-",
                (0, false) => "",
                _ => "+",
            };
            let number = val.abs();
            if number.is_one() && !axis.is_empty() {
                write!(f, "{}{}", sign, axis)?;
            } else {
                write!(f, "{}{}{}", sign, number, axis)?;
            }"""),
(S+"finder.rs", """    for i in 1..=max {
        a = &a * matrix;
        if a == identity {
            return i;
        }
    }
    
    0""", """    (1..=max).find(|_| {
        a = matrix * &a;
        a == identity
    }).unwrap_or(0)"""),
(S+"finder.rs", """    let crystal_system = match n {
        3 | 6 => CrystalSystem::Hexagonal,
        4 => CrystalSystem::Square,
        _ => if mirrors.len() > 0 {
            CrystalSystem::Rectangular
        } else {
            CrystalSystem::Oblique
        }
    };
""", """    let crystal_system = if n == 4 {
        CrystalSystem::Square
    } else if m == 3 {
        CrystalSystem::Hexagonal
    } else if mirrors.is_empty() {
        CrystalSystem::Oblique
    } else {
        CrystalSystem::Rectangular
    };
"""),
# input files
("src/io/parse_cgd_blocks.rs", """            EntryType::Empty => {
                if entry.notes.len() > 0 {
                    current_block.entries.push(entry);
                }
            },
            EntryType::Error => {
                current_block.entries.push(entry);
            },""", """            EntryType::Empty if entry.notes.is_empty() => {},
            EntryType::Empty | EntryType::Error => {
                current_block.entries.push(entry);
            },"""),
("src/io/parse_cgd_line.rs", """        map_opt(
            separated_pair(key, space1, separated_list0(space1, field)),
            |(k, rest)| Some(
                iter::once(Field::Key(k.to_string())).chain(rest).collect()
            )
        ),""", """        map_opt(
            separated_pair(key, space1, separated_list0(space1, field)),
            |(k, mut fields)| {
                fields.insert(0, Field::Key(k.to_owned()));
                Some(fields)
            }
        ),"""),
]

def main2():
    scratch()
    for f, old, new in EDITS:
        p = f"{REPO}/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    rc, out = sh("cargo test --workspace --offline 2>&1", REPO, 200)
    print("tests", rc, flush=True)
    if rc:
        print("\n".join(l for l in out.split("\n") if "FAILED" in l or "error" in l or "panicked" in l or "-->" in l)[:6000]); return
    ids = ARGS or ["C%02d" % i for i in range(1, 56)]
    for c in ids:
        rc, out = sh("./check " + c, SCRATCH + "/verif", 900)
        print(c, "quiet" if rc == 0 else f"rc={rc}\n{out[-1500:]}", flush=True)
main2()
