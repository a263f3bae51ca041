// ---------------------------------------------------------------- reading what was written
pub proof fn lemma_u32(x: u32, t: Seq<u8>) ensures dec_u32(le32(x) + t) == Some((x, t))
{ lemma_le32(x); let s = le32(x) + t; assert(s.take(4) =~= le32(x)); assert(s.skip(4) =~= t); }
pub proof fn lemma_str(n: Seq<char>, t: Seq<u8>) requires no_nul(n) ensures dec_str(enc_str(n) + t) == (n, t)
{
    let b = encode_utf8(n);
    lemma_cstr_roundtrip(b, t);
    assert(enc_str(n) + t =~= b + seq![0u8] + t);
    encode_utf8_valid_utf8(n); encode_utf8_decode_utf8(n);
}
pub proof fn lemma_vertex(v: VertexV, t: Seq<u8>) ensures dec_vertex(enc_vertex(v) + t) == Some((v, t))
{
    let d = le32(v.v) + t; let c = le32(v.u) + d; let b = le32(v.normal) + c;
    assert(enc_vertex(v) + t =~= le32(v.point) + b);
    lemma_u32(v.point, b); lemma_u32(v.normal, c); lemma_u32(v.u, d); lemma_u32(v.v, t);
}
pub proof fn lemma_point(v: PointV, t: Seq<u8>) ensures dec_point(enc_point(v) + t) == Some((v, t))
{
    let d = le32(v.flags) + t; let c = le32(v.z) + d; let b = le32(v.y) + c;
    assert(enc_point(v) + t =~= le32(v.x) + b);
    lemma_u32(v.x, b); lemma_u32(v.y, c); lemma_u32(v.z, d); lemma_u32(v.flags, t);
}
pub proof fn lemma_normal(v: NormalV, t: Seq<u8>) ensures dec_normal(enc_normal(v) + t) == Some((v, t))
{
    let c = le32(v.z) + t; let b = le32(v.y) + c;
    assert(enc_normal(v) + t =~= le32(v.x) + b);
    lemma_u32(v.x, b); lemma_u32(v.y, c); lemma_u32(v.z, t);
}
pub open spec fn returns<V>(e: spec_fn(V) -> Seq<u8>, d: spec_fn(Seq<u8>) -> Option<(V, Seq<u8>)>, v: V) -> bool { forall|t: Seq<u8>| d(#[trigger] (e(v) + t)) == Some((v, t)) }
pub proof fn lemma_list<V>(e: spec_fn(V) -> Seq<u8>, d: spec_fn(Seq<u8>) -> Option<(V, Seq<u8>)>, s: Seq<V>, t: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> returns(e, d, #[trigger] s[i])
    ensures dec_list(d, enc_list(e, s) + t, s.len()) == Some((s, t))
    decreases s.len()
{
    if s.len() == 0 {
        assert(enc_list(e, s) + t =~= t); assert(s =~= Seq::empty());
    } else {
        let r = s.skip(1);
        let u = enc_list(e, r) + t;
        assert forall|i: int| 0 <= i < r.len() implies returns(e, d, #[trigger] r[i]) by { assert(r[i] == s[i + 1]); }
        lemma_list(e, d, r, t);
        assert(enc_list(e, s) + t =~= e(s[0]) + u);
        assert(returns(e, d, s[0]));
        assert(d(e(s[0]) + u) == Some((s[0], u)));
        assert(seq![s[0]] + r =~= s);
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_face(f: FaceV, t: Seq<u8>) requires face_fits(f), face_named(f) ensures dec_face(enc_face(f) + t) == Some((f, t))
{
    hide(le32); hide(dec_list); hide(enc_list); hide(dec_str); hide(enc_str); hide(dec_u32); hide(dec_vertex);
    let e = enc_str(f.material) + t;
    let d = enc_str(f.texture) + e;
    let c = le32(f.flags) + d;
    let z = VertexV { point: 0, normal: 0, u: 0, v: 0 };
    let three = f.vertices.len() == 3;
    let b = (if three { zeros(16) } else { Seq::empty() }) + c;
    let a = enc_list(vertex_e(), f.vertices) + b;
    assert(enc_face(f) + t =~= le32(f.vertices.len() as u32) + a);
    lemma_u32(f.vertices.len() as u32, a);
    assert forall|i: int| 0 <= i < f.vertices.len() implies returns(vertex_e(), vertex_d(), #[trigger] f.vertices[i]) by {
        assert forall|t: Seq<u8>| vertex_d()(#[trigger] (vertex_e()(f.vertices[i]) + t)) == Some((f.vertices[i], t)) by { lemma_vertex(f.vertices[i], t); }
    }
    lemma_list(vertex_e(), vertex_d(), f.vertices, b);
    if three { assert(enc_vertex(z) =~= zeros(16)) by { lemma_le32_0(); } lemma_vertex(z, c); } else { assert(b =~= c); }
    lemma_u32(f.flags, d);
    lemma_str(f.texture, e);
    lemma_str(f.material, t);
}
pub proof fn lemma_tagg(x: TaggV, t: Seq<u8>) requires no_nul(x.name), x.data.len() <= u32::MAX ensures dec_tagg(enc_tagg(x) + t) == Some((x, t))
{
    let b = x.data + t;
    let a = le32(x.data.len() as u32) + b;
    assert(over(enc_tagg(x) + t, 1) =~= enc_str(x.name) + a);
    lemma_str(x.name, a);
    lemma_u32(x.data.len() as u32, b);
    assert(b.take(x.data.len() as int) =~= x.data);
    assert(b.skip(x.data.len() as int) =~= t);
}
#[verifier::spinoff_prover]
pub proof fn lemma_taggs(s: Seq<TaggV>, t: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> no_nul((#[trigger] s[i]).name) && s[i].name != eof_name() && s[i].data.len() <= u32::MAX
    ensures dec_taggs(enc_list(tagg_e(), s) + (enc_tagg(TaggV { name: eof_name(), data: Seq::empty() }) + t)) == Some((s, t))
    decreases s.len()
{
    let e = TaggV { name: eof_name(), data: Seq::<u8>::empty() };
    let tail = enc_tagg(e) + t;
    if s.len() == 0 {
        assert(enc_list(tagg_e(), s) + tail =~= tail);
        lemma_eof_no_nul();
        lemma_tagg(e, t);
        assert(s =~= Seq::empty());
    } else {
        let r = s.skip(1);
        let u = enc_list(tagg_e(), r) + tail;
        assert forall|i: int| 0 <= i < r.len() implies no_nul((#[trigger] r[i]).name) && r[i].name != eof_name() && r[i].data.len() <= u32::MAX by { assert(r[i] == s[i + 1]); }
        lemma_taggs(r, t);
        assert(enc_list(tagg_e(), s) + tail =~= enc_tagg(s[0]) + u);
        lemma_tagg(s[0], u);
        assert(seq![s[0]] + r =~= s);
    }
}
pub proof fn lemma_eof_no_nul() ensures no_nul(eof_name())
{
    reveal_strlit("#EndOfFile#");
    let a = eof_name();
    is_ascii_chars_encode_utf8(a);
    assert(a.len() == 11);
    let b = encode_utf8(a);
    assert forall|i: int| 0 <= i < b.len() implies b[i] != 0u8 by { assert(b[i] == a[i] as u8); }
}
pub proof fn lemma_mark(m: Seq<u8>, t: Seq<u8>) requires m.len() == 4 ensures dec_mark(m + t, m) == Some(t)
{ assert((m + t).take(4) =~= m); assert((m + t).skip(4) =~= t); }
pub proof fn lemma_head(l: LodV, t: Seq<u8>)
    ensures dec_head(enc_head(l) + t) == Some((HeadV { major: l.major, minor: l.minor, np: l.points.len() as u32, nn: l.normals.len() as u32, nf: l.faces.len() as u32 }, t))
{
    let t3 = zeros(4) + t;
    let h3 = le32(l.faces.len() as u32) + t3;
    let h2 = le32(l.normals.len() as u32) + h3;
    let h1 = le32(l.points.len() as u32) + h2;
    let h0 = le32(l.minor) + h1;
    let hm = le32(l.major) + h0;
    assert(enc_head(l) + t =~= p3dm() + hm);
    lemma_mark(p3dm(), hm);
    lemma_u32(l.major, h0); lemma_u32(l.minor, h1); lemma_u32(l.points.len() as u32, h2); lemma_u32(l.normals.len() as u32, h3); lemma_u32(l.faces.len() as u32, t3);
    assert(over(t3, 4) =~= t);
}
pub proof fn lemma_points(s: Seq<PointV>, t: Seq<u8>) ensures dec_list(point_d(), enc_list(point_e(), s) + t, s.len()) == Some((s, t))
{
    assert forall|i: int| 0 <= i < s.len() implies returns(point_e(), point_d(), #[trigger] s[i]) by {
        assert forall|t: Seq<u8>| point_d()(#[trigger] (point_e()(s[i]) + t)) == Some((s[i], t)) by { lemma_point(s[i], t); }
    }
    lemma_list(point_e(), point_d(), s, t);
}
pub proof fn lemma_normals(s: Seq<NormalV>, t: Seq<u8>) ensures dec_list(normal_d(), enc_list(normal_e(), s) + t, s.len()) == Some((s, t))
{
    assert forall|i: int| 0 <= i < s.len() implies returns(normal_e(), normal_d(), #[trigger] s[i]) by {
        assert forall|t: Seq<u8>| normal_d()(#[trigger] (normal_e()(s[i]) + t)) == Some((s[i], t)) by { lemma_normal(s[i], t); }
    }
    lemma_list(normal_e(), normal_d(), s, t);
}
pub proof fn lemma_faces(s: Seq<FaceV>, t: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> face_fits(#[trigger] s[i]), forall|i: int| 0 <= i < s.len() ==> face_named(#[trigger] s[i])
    ensures dec_list(face_d(), enc_list(face_e(), s) + t, s.len()) == Some((s, t))
{
    hide(dec_face); hide(enc_face);
    assert forall|i: int| 0 <= i < s.len() implies returns(face_e(), face_d(), #[trigger] s[i]) by {
        assert forall|t: Seq<u8>| face_d()(#[trigger] (face_e()(s[i]) + t)) == Some((s[i], t)) by { lemma_face(s[i], t); }
    }
    lemma_list(face_e(), face_d(), s, t);
}
#[verifier::spinoff_prover]
pub proof fn lemma_lod(l: LodV, t: Seq<u8>) requires lod_fits(l), lod_named(l) ensures dec_lod(enc_lod(l) + t) == Some((l, t))
{
    hide(enc_list); hide(dec_list); hide(dec_head); hide(enc_head); hide(dec_taggs); hide(enc_tagg); hide(dec_u32); hide(le32); hide(dec_mark);
    let (p, n, f, g) = (enc_list(point_e(), l.points), enc_list(normal_e(), l.normals), enc_list(face_e(), l.faces), enc_list(tagg_e(), l.taggs));
    let e = enc_tagg(TaggV { name: eof_name(), data: Seq::empty() });
    let t9 = le32(l.resolution) + t;
    let t8 = g + (e + t9);
    let t7 = tagg() + t8;
    let t6 = f + t7;
    let t5 = n + t6;
    let t4 = p + t5;
    assert(enc_lod(l) + t =~= enc_head(l) + t4);
    lemma_head(l, t4);
    lemma_points(l.points, t5);
    lemma_normals(l.normals, t6);
    lemma_faces(l.faces, t7);
    lemma_mark(tagg(), t8);
    lemma_taggs(l.taggs, t9);
    lemma_u32(l.resolution, t);
}
/// the theorem: a model that can be written is read back as it was, and the bytes after it are not touched
#[verifier::spinoff_prover]
pub proof fn theorem_roundtrip(p: P3dV, t: Seq<u8>) requires p3d_fits(p), p3d_named(p) ensures dec_p3d(enc_p3d(p) + t) == Some((p, t))
{
    hide(dec_lod); hide(enc_lod); hide(lod_fits); hide(lod_named);
    let b = enc_list(lod_e(), p.lods) + t;
    let a = le32(p.lods.len() as u32) + b;
    let c = le32(p.version) + a;
    assert(enc_p3d(p) + t =~= mlod() + c);
    lemma_mark(mlod(), c); lemma_u32(p.version, a); lemma_u32(p.lods.len() as u32, b);
    assert forall|i: int| 0 <= i < p.lods.len() implies returns(lod_e(), lod_d(), #[trigger] p.lods[i]) by {
        assert forall|t: Seq<u8>| lod_d()(#[trigger] (lod_e()(p.lods[i]) + t)) == Some((p.lods[i], t)) by { lemma_lod(p.lods[i], t); }
    }
    lemma_list(lod_e(), lod_d(), p.lods, t);
}
/// a file in the standard form is the encoding of one model only, so reading and writing it again gives the same bytes
#[verifier::spinoff_prover]
pub proof fn theorem_same_bytes(file: Seq<u8>, p: P3dV, q: P3dV, rest: Seq<u8>)
    requires file == enc_p3d(p), p3d_fits(p), p3d_named(p), dec_p3d(file) == Some((q, rest))
    ensures q == p, enc_p3d(q) == file, rest.len() == 0
{ theorem_roundtrip(p, Seq::empty()); assert(enc_p3d(p) + Seq::<u8>::empty() =~= enc_p3d(p)); }
