#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::float::FloatBitsProperties;
verus! {
//@include inc/stdio.rs
//@include inc/enc.rs
//@include inc/cstr.rs
//@include inc/ioext.rs
//@include inc/ioext_assumed.rs
//@include inc/bytes.rs
//@include inc/p3dspec.rs
//@include inc/p3dio.rs

//@extract libs/p3d/src/vertex.rs | struct Vertex
//@end
//@extract libs/p3d/src/point.rs | struct Point
//@end
//@extract libs/p3d/src/face.rs | struct Face
//@end
//@extract libs/p3d/src/lod.rs | struct LOD
//@end
//@extract libs/p3d/src/lib.rs | struct P3D
//@end
pub open spec fn bits(x: f32) -> u32 { x.to_bits_spec() }

// -------- views
impl Vertex { pub open spec fn v(&self) -> VertexV { VertexV { point: self.point_index, normal: self.normal_index, u: bits(self.uv.0), v: bits(self.uv.1) } } }
impl Point { pub open spec fn v(&self) -> PointV { PointV { x: bits(self.coords.0), y: bits(self.coords.1), z: bits(self.coords.2), flags: self.flags } } }
pub open spec fn nv(n: (f32, f32, f32)) -> NormalV { NormalV { x: bits(n.0), y: bits(n.1), z: bits(n.2) } }
pub open spec fn tv(t: (String, Box<[u8]>)) -> TaggV { TaggV { name: t.0@, data: t.1@ } }
pub open spec fn vvs(s: Seq<Vertex>) -> Seq<VertexV> { s.map_values(|v: Vertex| v.v()) }
pub open spec fn pvs(s: Seq<Point>) -> Seq<PointV> { s.map_values(|v: Point| v.v()) }
pub open spec fn nvs(s: Seq<(f32, f32, f32)>) -> Seq<NormalV> { s.map_values(|n: (f32, f32, f32)| nv(n)) }
pub open spec fn fvs(s: Seq<Face>) -> Seq<FaceV> { s.map_values(|v: Face| v.v()) }
pub open spec fn tvs(s: Seq<(String, Box<[u8]>)>) -> Seq<TaggV> { s.map_values(|t: (String, Box<[u8]>)| tv(t)) }
pub open spec fn lvs(s: Seq<LOD>) -> Seq<LodV> { s.map_values(|v: LOD| v.v()) }
impl Face { pub open spec fn v(&self) -> FaceV { FaceV { vertices: vvs(self.vertices@), flags: self.flags, texture: self.texture@, material: self.material@ } } }
impl LOD { pub open spec fn v(&self) -> LodV { LodV { major: self.version_major, minor: self.version_minor, resolution: bits(self.resolution), points: pvs(self.points@), normals: nvs(self.face_normals@), faces: fvs(self.faces@), taggs: tvs(self.taggs@) } } }
impl P3D { pub open spec fn v(&self) -> P3dV { P3dV { version: self.version, lods: lvs(self.lods@) } } }

/// the contract of every reader: exactly what the format says, or an error
pub open spec fn reads<T, V>(r: Result<T, Error>, v: spec_fn(T) -> V, d: Option<(V, Seq<u8>)>, after: Seq<u8>) -> bool {
    match d { None => r is Err, Some((x, s)) => r is Ok && v(r->Ok_0) == x && after == s }
}
/// the contract of every writer: exactly the bytes of the value, or an error because the device failed or the format has no room
pub open spec fn writes<T>(r: Result<T, Error>, before: Seq<u8>, after: Seq<u8>, e: Seq<u8>, fits: bool, faulty: bool) -> bool {
    &&& r is Ok ==> fits && after =~= before + e
    &&& r is Err ==> faulty || !fits
}

impl Vertex {
//@extract libs/p3d/src/vertex.rs | impl Vertex @ fn new
//@spec
    ensures r.v() == (VertexV { point: 0, normal: 0, u: 0, v: 0 })
//@end
//@extract libs/p3d/src/vertex.rs | impl Vertex @ fn read
//@spec
    ensures !I::faulty() ==> reads(r, |x: Vertex| x.v(), dec_vertex(old(input).rest()), final(input).rest())
//@end
//@extract libs/p3d/src/vertex.rs | impl Vertex @ fn write
//@spec
    ensures writes(r, old(output).written(), final(output).written(), enc_vertex(self.v()), true, O::wfaulty())
//@end
}
impl Point {
//@extract libs/p3d/src/point.rs | impl Point @ fn read
//@spec
    ensures !I::faulty() ==> reads(r, |x: Point| x.v(), dec_point(old(input).rest()), final(input).rest())
//@end
//@extract libs/p3d/src/point.rs | impl Point @ fn write
//@spec
    ensures writes(r, old(output).written(), final(output).written(), enc_point(self.v()), true, O::wfaulty())
//@end
}
impl Face {
//@extract libs/p3d/src/face.rs | impl Face @ fn read
//@attr #[verifier::loop_isolation(false)] #[verifier::spinoff_prover]
//@sub for _i in ==> for _i in it:
//@spec
    ensures !I::faulty() ==> reads(r, |x: Face| x.v(), dec_face(old(input).rest()), final(input).rest())
//@entry
    proof { assert forall|t: Seq<char>| decode_utf8(#[trigger] encode_utf8(t)) == t by { encode_utf8_decode_utf8(t); } }
//@loopinit 0
    let ghost r0 = input.rest();
    proof { lemma_before_empty(dec_list(vertex_d(), r0, num_verts as nat)); assert(vvs(vertices@) =~= Seq::empty()); }
//@loop 0 for
    invariant
        num_verts == 3 || num_verts == 4,
        vertices@.len() == it.index@,
        !I::faulty() ==> dec_list(vertex_d(), r0, num_verts as nat) == before(vvs(vertices@), dec_list(vertex_d(), input.rest(), (num_verts - it.index@) as nat)),
//@loopstart 0
    let ghost a0 = vertices@; let ghost s0 = input.rest(); let ghost k0 = (num_verts - it.index@) as nat;
    proof { assert(!I::faulty() && dec_vertex(s0) is None ==> dec_list(vertex_d(), s0, k0) is None); }
//@loopend 0
    proof {
        let x = vertices@[vertices@.len() - 1];
        assert(vertices@ =~= a0.push(x));
        assert(vvs(vertices@) =~= vvs(a0) + seq![vvs(vertices@)[a0.len() as int]]);
        lemma_before_step(vvs(a0), vvs(vertices@)[a0.len() as int], dec_list(vertex_d(), input.rest(), (k0 - 1) as nat));
    }
//@end
//@extract libs/p3d/src/face.rs | impl Face @ fn write
//@attr #[verifier::spinoff_prover]
//@sub \|_\| ==> |_e|
//@spec
    ensures writes(r, old(output).written(), final(output).written(), enc_face(self.v()), face_fits(self.v()), O::wfaulty())
//@entry
    broadcast use bytes_of_string_ax;
    let ghost w = output.written();
//@index 0
//@loopinit 0
    let ghost w0 = output.written();
    proof { assert(vvs(self.vertices@.take(0)) =~= Seq::empty()); lemma_enc_nil(vertex_e(), vvs(self.vertices@.take(0)), w0); }
//@loop 0 for
    invariant
        vs0@ == self.vertices@,
        ix0 <= vs0@.len(),
        output.written() == w0 + enc_list(vertex_e(), vvs(self.vertices@.take(ix0 as int))),
    decreases vs0@.len() - ix0
//@loopstart 0
    let ghost u0 = output.written();
    proof { assert(vvs(self.vertices@)[ix0 - 1] == vs0@[ix0 - 1].v()); }
//@loopend 0
    proof {
        let i = ix0 - 1;
        assert(vvs(self.vertices@.take(i + 1)) =~= vvs(self.vertices@.take(i)).push(vvs(self.vertices@)[i]));
        lemma_enc_push(vertex_e(), vvs(self.vertices@.take(i)), vvs(self.vertices@)[i]);
        assert(output.written() =~= u0 + vertex_e()(vvs(self.vertices@)[i])); lemma_assoc(w0, enc_list(vertex_e(), vvs(self.vertices@.take(i))), vertex_e()(vvs(self.vertices@)[i]));
    }
//@exit
    proof { 
        assert(self.vertices@.take(self.vertices@.len() as int) =~= self.vertices@);
        assert(enc_vertex(VertexV { point: 0, normal: 0, u: 0, v: 0 }) =~= zeros(16)) by { lemma_le32_0(); }
    }
//@end
}
impl LOD {
//@extract libs/p3d/src/lod.rs | impl LOD @ fn read
//@attr #[verifier::spinoff_prover]
//@sub for _i in ==> for _i in it:
//@sub &buffer != (&\[[^\]]*\]) ==> !is_mark(&buffer, \1)
//@sub String::from_utf8_lossy\(&buffer\)\.to_string\(\) ==> shown(&buffer)
//@sub (\w+) == ("[^"]*") ==> str_is(\1.as_str(), \2)
//@sub vec!\[0; (.*)\]\.into_boxed_slice\(\) ==> boxed(vec![0; \1])
//@spec
    ensures !I::faulty() ==> reads(r, |x: LOD| x.v(), dec_lod(old(input).rest()), final(input).rest())
//@entry
    hide(dec_face); hide(dec_point); hide(de32);
    proof { assert forall|t: Seq<char>| decode_utf8(#[trigger] encode_utf8(t)) == t by { encode_utf8_decode_utf8(t); } }
//@loopinit 0
    let ghost h = HeadV { major: version_major, minor: version_minor, np: num_points, nn: num_face_normals, nf: num_faces };
    let ghost r0 = input.rest();
    proof { lemma_before_empty(dec_list(point_d(), r0, num_points as nat)); assert(pvs(points@) =~= Seq::empty()); }
//@loop 0 for
    invariant
        h.np == num_points, !I::faulty() ==> dec_lod(old(input).rest()) == lod_points(h, r0),
        points@.len() == it.index@,
        !I::faulty() ==> dec_list(point_d(), r0, num_points as nat) == before(pvs(points@), dec_list(point_d(), input.rest(), (num_points - it.index@) as nat)),
//@loopstart 0
    let ghost a0 = points@; let ghost s0 = input.rest(); let ghost k0 = (num_points - it.index@) as nat;
    proof { assert(!I::faulty() && dec_point(s0) is None ==> dec_list(point_d(), s0, k0) is None); }
//@loopend 0
    proof {
        let x = points@[points@.len() - 1];
        assert(points@ =~= a0.push(x));
        assert(pvs(points@) =~= pvs(a0) + seq![pvs(points@)[a0.len() as int]]);
        lemma_before_step(pvs(a0), pvs(points@)[a0.len() as int], dec_list(point_d(), input.rest(), (k0 - 1) as nat));
    }
//@loopinit 1
    let ghost r1 = input.rest();
    proof { lemma_before_empty(dec_list(normal_d(), r1, num_face_normals as nat)); assert(nvs(face_normals@) =~= Seq::empty()); }
//@loop 1 for
    invariant
        h.nn == num_face_normals, !I::faulty() ==> dec_lod(old(input).rest()) == lod_normals(h, pvs(points@), r1),
        face_normals@.len() == it.index@,
        !I::faulty() ==> dec_list(normal_d(), r1, num_face_normals as nat) == before(nvs(face_normals@), dec_list(normal_d(), input.rest(), (num_face_normals - it.index@) as nat)),
//@loopstart 1
    let ghost a1 = face_normals@; let ghost s1 = input.rest(); let ghost k1 = (num_face_normals - it.index@) as nat;
    proof { assert(!I::faulty() && dec_normal(s1) is None ==> dec_list(normal_d(), s1, k1) is None); }
//@loopend 1
    proof {
        let x = face_normals@[face_normals@.len() - 1];
        assert(face_normals@ =~= a1.push(x));
        assert(nvs(face_normals@) =~= nvs(a1) + seq![nvs(face_normals@)[a1.len() as int]]);
        lemma_before_step(nvs(a1), nvs(face_normals@)[a1.len() as int], dec_list(normal_d(), input.rest(), (k1 - 1) as nat));
    }
//@loopinit 2
    let ghost r2 = input.rest();
    proof { lemma_before_empty(dec_list(face_d(), r2, num_faces as nat)); assert(fvs(faces@) =~= Seq::empty()); }
//@loop 2 for
    invariant
        h.nf == num_faces, !I::faulty() ==> dec_lod(old(input).rest()) == lod_faces(h, pvs(points@), nvs(face_normals@), r2),
        faces@.len() == it.index@,
        !I::faulty() ==> dec_list(face_d(), r2, num_faces as nat) == before(fvs(faces@), dec_list(face_d(), input.rest(), (num_faces - it.index@) as nat)),
//@loopstart 2
    let ghost a2 = faces@; let ghost s2 = input.rest(); let ghost k2 = (num_faces - it.index@) as nat;
    proof { assert(!I::faulty() && dec_face(s2) is None ==> dec_list(face_d(), s2, k2) is None); }
//@loopend 2
    proof {
        let x = faces@[faces@.len() - 1];
        assert(faces@ =~= a2.push(x));
        assert(fvs(faces@) =~= fvs(a2) + seq![fvs(faces@)[a2.len() as int]]);
        lemma_before_step(fvs(a2), fvs(faces@)[a2.len() as int], dec_list(face_d(), input.rest(), (k2 - 1) as nat));
    }
//@loopinit 3
    let ghost r3 = input.rest();
    proof { lemma_before_empty(dec_taggs(r3)); assert(tvs(taggs@) =~= Seq::empty()); }
//@loop 3 loop
    invariant_except_break
        !I::faulty() ==> dec_taggs(r3) == before(tvs(taggs@), dec_taggs(input.rest())),
    invariant
        !I::faulty() ==> dec_lod(old(input).rest()) == lod_taggs(h, pvs(points@), nvs(face_normals@), fvs(faces@), r3),
        forall|t: Seq<char>| decode_utf8(#[trigger] encode_utf8(t)) == t,
    ensures
        !I::faulty() ==> dec_taggs(r3) == Some((tvs(taggs@), input.rest())),
    decreases input.rest().len()
//@loopstart 3
    let ghost a3 = taggs@; let ghost s3 = input.rest();
    proof { assert forall|q: Seq<u8>| #![trigger cstr_len(q)] 0 <= cstr_len(q) <= q.len() && (q.contains(0u8) ==> cstr_len(q) < q.len()) by { lemma_cstr_len(q); } }
//@before if str_is
    proof { assert(!I::faulty() ==> dec_tagg(s3) == Some((TaggV { name: name@, data: buffer@ }, input.rest()))); }
//@loopend 3
    proof {
        let x = taggs@[taggs@.len() - 1];
        assert(taggs@ =~= a3.push(x));
        assert(tvs(taggs@) =~= tvs(a3) + seq![tv(x)]);
        lemma_before_step(tvs(a3), tv(x), dec_taggs(input.rest()));
    }
//@end
//@extract libs/p3d/src/lod.rs | impl LOD @ fn write
//@attr #[verifier::spinoff_prover]
//@sub \|_\| ==> |_e|
//@spec
    ensures writes(r, old(output).written(), final(output).written(), enc_lod(self.v()), lod_fits(self.v()), O::wfaulty())
//@entry
    hide(enc_face); hide(enc_point); hide(face_fits); hide(enc_list); hide(enc_lod);
    broadcast use bytes_of_string_ax; broadcast use bytes_of_str_ax;
    proof { lemma_eof_text(); lemma_le32_0(); }
//@index 0
//@index 1
//@index 2
//@index 3
//@loopinit 0
    let ghost w0 = output.written();
    proof { assert(pvs(self.points@.take(0)) =~= Seq::empty()); lemma_enc_nil(point_e(), pvs(self.points@.take(0)), w0); }
//@loop 0 for
    invariant
        vs0@ == self.points@,
        ix0 <= vs0@.len(),
        output.written() == w0 + enc_list(point_e(), pvs(self.points@.take(ix0 as int))),
    decreases vs0@.len() - ix0
//@loopstart 0
    let ghost u0 = output.written();
    proof { assert(pvs(self.points@)[ix0 - 1] == vs0@[ix0 - 1].v()); }
//@loopend 0
    proof {
        let i = ix0 - 1;
        assert(pvs(self.points@.take(i + 1)) =~= pvs(self.points@.take(i)).push(pvs(self.points@)[i]));
        lemma_enc_push(point_e(), pvs(self.points@.take(i)), pvs(self.points@)[i]);
        assert(output.written() =~= u0 + point_e()(pvs(self.points@)[i])); lemma_assoc(w0, enc_list(point_e(), pvs(self.points@.take(i))), point_e()(pvs(self.points@)[i]));
    }
//@loopinit 1
    let ghost w1 = output.written();
    proof { assert(nvs(self.face_normals@.take(0)) =~= Seq::empty()); lemma_enc_nil(normal_e(), nvs(self.face_normals@.take(0)), w1); }
//@loop 1 for
    invariant
        vs1@ == self.face_normals@,
        ix1 <= vs1@.len(),
        output.written() == w1 + enc_list(normal_e(), nvs(self.face_normals@.take(ix1 as int))),
    decreases vs1@.len() - ix1
//@loopstart 1
    let ghost u1 = output.written();
    proof { assert(nvs(self.face_normals@)[ix1 - 1] == nv(vs1@[ix1 - 1])); }
//@loopend 1
    proof {
        let i = ix1 - 1;
        assert(nvs(self.face_normals@.take(i + 1)) =~= nvs(self.face_normals@.take(i)).push(nvs(self.face_normals@)[i]));
        lemma_enc_push(normal_e(), nvs(self.face_normals@.take(i)), nvs(self.face_normals@)[i]);
        assert(output.written() =~= u1 + normal_e()(nvs(self.face_normals@)[i])); lemma_assoc(w1, enc_list(normal_e(), nvs(self.face_normals@.take(i))), normal_e()(nvs(self.face_normals@)[i]));
    }
//@loopinit 2
    let ghost w2 = output.written();
    proof { assert(fvs(self.faces@.take(0)) =~= Seq::empty()); lemma_enc_nil(face_e(), fvs(self.faces@.take(0)), w2); }
//@loop 2 for
    invariant
        vs2@ == self.faces@,
        ix2 <= vs2@.len(),
        output.written() == w2 + enc_list(face_e(), fvs(self.faces@.take(ix2 as int))),
        forall|j: int| 0 <= j < ix2 ==> face_fits(#[trigger] fvs(self.faces@)[j]),
    decreases vs2@.len() - ix2
//@loopstart 2
    let ghost u2 = output.written();
    proof { assert(fvs(self.faces@)[ix2 - 1] == vs2@[ix2 - 1].v()); }
//@loopend 2
    proof {
        let i = ix2 - 1;
        assert(fvs(self.faces@.take(i + 1)) =~= fvs(self.faces@.take(i)).push(fvs(self.faces@)[i]));
        lemma_enc_push(face_e(), fvs(self.faces@.take(i)), fvs(self.faces@)[i]);
        assert(output.written() =~= u2 + face_e()(fvs(self.faces@)[i])); lemma_assoc(w2, enc_list(face_e(), fvs(self.faces@.take(i))), face_e()(fvs(self.faces@)[i]));
    }
//@loopinit 3
    let ghost w3 = output.written();
    proof { assert(tvs(self.taggs@.take(0)) =~= Seq::empty()); lemma_enc_nil(tagg_e(), tvs(self.taggs@.take(0)), w3); }
//@loop 3 for
    invariant
        vs3@ == self.taggs@,
        ix3 <= vs3@.len(),
        output.written() == w3 + enc_list(tagg_e(), tvs(self.taggs@.take(ix3 as int))),
        forall|j: int| 0 <= j < ix3 ==> (#[trigger] tvs(self.taggs@)[j]).data.len() <= u32::MAX,
    decreases vs3@.len() - ix3
//@loopstart 3
    broadcast use bytes_of_string_ax;
    let ghost u3 = output.written();
    proof { assert(tvs(self.taggs@)[ix3 - 1] == tv(vs3@[ix3 - 1])); assert(self.v().taggs[ix3 - 1].data == vs3@[ix3 - 1].1@); }
//@loopend 3
    proof {
        let i = ix3 - 1;
        assert(tvs(self.taggs@.take(i + 1)) =~= tvs(self.taggs@.take(i)).push(tvs(self.taggs@)[i]));
        lemma_enc_push(tagg_e(), tvs(self.taggs@.take(i)), tvs(self.taggs@)[i]);
        assert(output.written() =~= u3 + tagg_e()(tvs(self.taggs@)[i])); lemma_assoc(w3, enc_list(tagg_e(), tvs(self.taggs@.take(i))), tagg_e()(tvs(self.taggs@)[i]));
    }
//@before Ok\(\(\)\)
    proof {
        assert(self.points@.take(self.points@.len() as int) =~= self.points@);
        assert(self.face_normals@.take(self.face_normals@.len() as int) =~= self.face_normals@);
        assert(self.faces@.take(self.faces@.len() as int) =~= self.faces@);
        assert(self.taggs@.take(self.taggs@.len() as int) =~= self.taggs@);
        let l = self.v();
        assert(w0 =~= old(output).written() + enc_head(l));
        lemma_lod_bytes(l, old(output).written(), w3);
    }
//@end
}
impl P3D {
//@extract libs/p3d/src/lib.rs | impl P3D @ fn read
//@attr #[verifier::loop_isolation(false)] #[verifier::spinoff_prover]
//@sub for _i in ==> for _i in it:
//@sub &buffer != (&\[[^\]]*\]) ==> !is_mark(&buffer, \1)
//@sub String::from_utf8_lossy\(&buffer\)\.to_string\(\) ==> shown(&buffer)
//@spec
    ensures !I::faulty() ==> match dec_p3d(old(input).rest()) { None => r is Err, Some((v, _)) => r is Ok && r->Ok_0.v() == v }
//@entry
    hide(dec_lod);
//@loopinit 0
    let ghost r0 = reader.rest();
    proof { lemma_before_empty(dec_list(lod_d(), r0, num_lods as nat)); assert(lvs(lods@) =~= Seq::empty()); }
//@loop 0 for
    invariant
        lods@.len() == it.index@,
        !I::faulty() ==> dec_list(lod_d(), r0, num_lods as nat) == before(lvs(lods@), dec_list(lod_d(), reader.rest(), (num_lods - it.index@) as nat)),
//@loopstart 0
    let ghost a0 = lods@; let ghost s0 = reader.rest(); let ghost k0 = (num_lods - it.index@) as nat;
    proof { assert(!I::faulty() && dec_lod(s0) is None ==> dec_list(lod_d(), s0, k0) is None); }
//@loopend 0
    proof {
        let x = lods@[lods@.len() - 1];
        assert(lods@ =~= a0.push(x));
        assert(lvs(lods@) =~= lvs(a0) + seq![lvs(lods@)[a0.len() as int]]);
        lemma_before_step(lvs(a0), lvs(lods@)[a0.len() as int], dec_list(lod_d(), reader.rest(), (k0 - 1) as nat));
    }
//@end
//@extract libs/p3d/src/lib.rs | impl P3D @ fn write
//@attr #[verifier::spinoff_prover]
//@sub \|_\| ==> |_e|
//@sub BufWriter::new\(output\) ==> BufWriter::over(output)
//@sub? writer\.flush\(\) ==> writer.flush_into(output)
//@spec
    ensures writes(r, old(output).written(), final(output).written(), enc_p3d(self.v()), p3d_fits(self.v()), O::wfaulty())
//@entry
    hide(enc_lod); hide(lod_fits);
//@index 0
//@loopinit 0
    let ghost w0 = writer.written();
    proof { assert(lvs(self.lods@.take(0)) =~= Seq::empty()); lemma_enc_nil(lod_e(), lvs(self.lods@.take(0)), w0); }
//@loop 0 for
    invariant
        vs0@ == self.lods@,
        ix0 <= vs0@.len(),
        writer.written() == w0 + enc_list(lod_e(), lvs(self.lods@.take(ix0 as int))),
        forall|j: int| 0 <= j < ix0 ==> lod_fits(#[trigger] lvs(self.lods@)[j]),
    decreases vs0@.len() - ix0
//@loopstart 0
    let ghost u0 = writer.written();
    proof { assert(lvs(self.lods@)[ix0 - 1] == vs0@[ix0 - 1].v()); }
//@loopend 0
    proof {
        let i = ix0 - 1;
        assert(lvs(self.lods@.take(i + 1)) =~= lvs(self.lods@.take(i)).push(lvs(self.lods@)[i]));
        lemma_enc_push(lod_e(), lvs(self.lods@.take(i)), lvs(self.lods@)[i]);
        assert(writer.written() =~= u0 + lod_e()(lvs(self.lods@)[i])); lemma_assoc(w0, enc_list(lod_e(), lvs(self.lods@.take(i))), lod_e()(lvs(self.lods@)[i]));
    }
//@before Ok\(\(\)\)
    proof {
        assert(self.lods@.take(self.lods@.len() as int) =~= self.lods@);
        assert(w0 =~= old(output).written() + (mlod() + le32(self.version) + le32(self.lods@.len() as u32)));
    }
//@end
}
pub proof fn lemma_before_empty<V>(r: Option<(Seq<V>, Seq<u8>)>) ensures before(Seq::<V>::empty(), r) == r
{ if r is Some { assert(Seq::<V>::empty() + (r->0).0 =~= (r->0).0); } }
pub proof fn lemma_before_step<V>(a: Seq<V>, x: V, r: Option<(Seq<V>, Seq<u8>)>) ensures before(a, before(seq![x], r)) == before(a + seq![x], r)
{ if r is Some { assert(a + (seq![x] + (r->0).0) =~= (a + seq![x]) + (r->0).0); } }
pub proof fn lemma_lod_bytes(l: LodV, o: Seq<u8>, w3: Seq<u8>)
    requires w3 == o + enc_head(l) + enc_list(point_e(), l.points) + enc_list(normal_e(), l.normals) + enc_list(face_e(), l.faces) + tagg(),
    ensures w3 + enc_list(tagg_e(), l.taggs) + (seq![1u8] + encode_utf8(eof_name()) + seq![0u8]) + le32(0) + le32(l.resolution) == o + enc_lod(l)
{
    hide(enc_list); hide(enc_head); hide(le32);
    let e = enc_tagg(TaggV { name: eof_name(), data: Seq::empty() });
    assert(e =~= (seq![1u8] + encode_utf8(eof_name()) + seq![0u8]) + le32(0));
    assert(w3 + enc_list(tagg_e(), l.taggs) + (seq![1u8] + encode_utf8(eof_name()) + seq![0u8]) + le32(0) + le32(l.resolution) =~= o + enc_lod(l));
}
pub proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub proof fn lemma_enc_nil<V>(e: spec_fn(V) -> Seq<u8>, s: Seq<V>, w: Seq<u8>) requires s.len() == 0 ensures w + enc_list(e, s) == w
{ assert(w + enc_list(e, s) =~= w); }
pub proof fn lemma_enc_push<V>(e: spec_fn(V) -> Seq<u8>, s: Seq<V>, x: V) ensures enc_list(e, s.push(x)) == enc_list(e, s) + e(x)
    decreases s.len()
{
    if s.len() == 0 {
        assert(s.push(x).skip(1) =~= Seq::<V>::empty());
        assert(s.push(x)[0] == x); assert(enc_list(e, s.push(x).skip(1)) =~= Seq::<u8>::empty());
        assert(enc_list(e, s.push(x)) =~= e(x));
        assert(enc_list(e, s) + e(x) =~= e(x));
    } else {
        assert(s.push(x).skip(1) =~= s.skip(1).push(x));
        lemma_enc_push(e, s.skip(1), x);
        assert(enc_list(e, s.push(x)) =~= enc_list(e, s) + e(x));
    }
}
pub proof fn lemma_eof_text() ensures encode_utf8("\x01#EndOfFile#"@) == seq![1u8] + encode_utf8(eof_name())
{
    reveal_strlit("\x01#EndOfFile#"); reveal_strlit("#EndOfFile#");
    let a = "\x01#EndOfFile#"@;
    assert(a.drop_first() =~= eof_name());
    assert(a[0] == '\x01');
    assert(encode_scalar(a[0] as u32) =~= seq![1u8]) by { assert(0x01u32 & 0x7F == 1) by (bit_vector); }
    reveal_with_fuel(encode_utf8, 2);
    assert(encode_utf8(a) =~= seq![1u8] + encode_utf8(eof_name()));
}
pub proof fn lemma_le32_0() ensures le32(0) == zeros(4)
{ assert((0u32 & 0xff) as u8 == 0 && ((0u32 >> 8) & 0xff) as u8 == 0 && ((0u32 >> 16) & 0xff) as u8 == 0 && ((0u32 >> 24) & 0xff) as u8 == 0) by (bit_vector); assert(le32(0) =~= zeros(4)); }
//@include inc/p3dround.rs
}
fn main(){}
