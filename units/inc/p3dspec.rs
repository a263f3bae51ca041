// ---------------------------------------------------------------- what a model is, and its bytes
pub struct VertexV { pub point: u32, pub normal: u32, pub u: u32, pub v: u32 }
pub struct PointV { pub x: u32, pub y: u32, pub z: u32, pub flags: u32 }
pub struct NormalV { pub x: u32, pub y: u32, pub z: u32 }
pub struct FaceV { pub vertices: Seq<VertexV>, pub flags: u32, pub texture: Seq<char>, pub material: Seq<char> }
pub struct TaggV { pub name: Seq<char>, pub data: Seq<u8> }
pub struct LodV {
    pub major: u32, pub minor: u32, pub resolution: u32,
    pub points: Seq<PointV>, pub normals: Seq<NormalV>, pub faces: Seq<FaceV>, pub taggs: Seq<TaggV>,
}
pub struct P3dV { pub version: u32, pub lods: Seq<LodV> }

// -------- the format, as a writer
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
/// the marks, in ASCII
pub open spec fn p3dm() -> Seq<u8> { seq![80u8, 51, 68, 77] }
pub open spec fn tagg() -> Seq<u8> { seq![84u8, 65, 71, 71] }
pub open spec fn mlod() -> Seq<u8> { seq![77u8, 76, 79, 68] }
pub open spec fn enc_str(s: Seq<char>) -> Seq<u8> { encode_utf8(s) + seq![0u8] }
pub open spec fn enc_vertex(v: VertexV) -> Seq<u8> { le32(v.point) + le32(v.normal) + le32(v.u) + le32(v.v) }
pub open spec fn enc_point(p: PointV) -> Seq<u8> { le32(p.x) + le32(p.y) + le32(p.z) + le32(p.flags) }
pub open spec fn enc_normal(p: NormalV) -> Seq<u8> { le32(p.x) + le32(p.y) + le32(p.z) }
pub open spec fn enc_list<V>(e: spec_fn(V) -> Seq<u8>, s: Seq<V>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { e(s[0]) + enc_list(e, s.skip(1)) } }
pub open spec fn vertex_e() -> spec_fn(VertexV) -> Seq<u8> { |v: VertexV| enc_vertex(v) }
pub open spec fn point_e() -> spec_fn(PointV) -> Seq<u8> { |v: PointV| enc_point(v) }
pub open spec fn normal_e() -> spec_fn(NormalV) -> Seq<u8> { |v: NormalV| enc_normal(v) }
pub open spec fn face_e() -> spec_fn(FaceV) -> Seq<u8> { |v: FaceV| enc_face(v) }
pub open spec fn tagg_e() -> spec_fn(TaggV) -> Seq<u8> { |v: TaggV| enc_tagg(v) }
pub open spec fn lod_e() -> spec_fn(LodV) -> Seq<u8> { |v: LodV| enc_lod(v) }
/// a triangle is followed by an unused corner of zeros
pub open spec fn enc_face(f: FaceV) -> Seq<u8> {
    le32(f.vertices.len() as u32) + enc_list(vertex_e(), f.vertices) + (if f.vertices.len() == 3 { zeros(16) } else { Seq::empty() })
        + le32(f.flags) + enc_str(f.texture) + enc_str(f.material)
}
pub open spec fn enc_tagg(t: TaggV) -> Seq<u8> { seq![1u8] + enc_str(t.name) + le32(t.data.len() as u32) + t.data }
pub open spec fn eof_name() -> Seq<char> { "#EndOfFile#"@ }
pub open spec fn enc_head(l: LodV) -> Seq<u8> {
    p3dm() + le32(l.major) + le32(l.minor) + le32(l.points.len() as u32) + le32(l.normals.len() as u32) + le32(l.faces.len() as u32) + zeros(4)
}
pub open spec fn enc_lod(l: LodV) -> Seq<u8> {
    enc_head(l) + enc_list(point_e(), l.points) + enc_list(normal_e(), l.normals) + enc_list(face_e(), l.faces)
        + tagg() + enc_list(tagg_e(), l.taggs) + enc_tagg(TaggV { name: eof_name(), data: Seq::empty() }) + le32(l.resolution)
}
pub open spec fn enc_p3d(p: P3dV) -> Seq<u8> { mlod() + le32(p.version) + le32(p.lods.len() as u32) + enc_list(lod_e(), p.lods) }
/// what the format has room for
pub open spec fn face_fits(f: FaceV) -> bool { f.vertices.len() == 3 || f.vertices.len() == 4 }
pub open spec fn lod_fits(l: LodV) -> bool {
    &&& l.points.len() <= u32::MAX && l.normals.len() <= u32::MAX && l.faces.len() <= u32::MAX
    &&& forall|i: int| 0 <= i < l.faces.len() ==> face_fits(#[trigger] l.faces[i])
    &&& forall|i: int| 0 <= i < l.taggs.len() ==> (#[trigger] l.taggs[i]).data.len() <= u32::MAX
}
pub open spec fn p3d_fits(p: P3dV) -> bool {
    &&& p.lods.len() <= u32::MAX
    &&& forall|i: int| 0 <= i < p.lods.len() ==> lod_fits(#[trigger] p.lods[i])
}
/// names that can stand in the file: no NUL inside, and no block has the name of the end mark
pub open spec fn no_nul(s: Seq<char>) -> bool { !encode_utf8(s).contains(0u8) }
pub open spec fn face_named(f: FaceV) -> bool { no_nul(f.texture) && no_nul(f.material) }
pub open spec fn lod_named(l: LodV) -> bool {
    &&& forall|i: int| 0 <= i < l.faces.len() ==> face_named(#[trigger] l.faces[i])
    &&& forall|i: int| 0 <= i < l.taggs.len() ==> no_nul((#[trigger] l.taggs[i]).name) && l.taggs[i].name != eof_name()
}
pub open spec fn p3d_named(p: P3dV) -> bool { forall|i: int| 0 <= i < p.lods.len() ==> lod_named(#[trigger] p.lods[i]) }

// -------- the format, as a reader: the value and what is left, or None
pub open spec fn dec_u32(s: Seq<u8>) -> Option<(u32, Seq<u8>)> { if s.len() < 4 { None } else { Some((de32(s.take(4)), s.skip(4))) } }
pub open spec fn dec_bytes(s: Seq<u8>, n: nat) -> Option<(Seq<u8>, Seq<u8>)> { if s.len() < n { None } else { Some((s.take(n as int), s.skip(n as int))) } }
/// up to n bytes are passed over
pub open spec fn over(s: Seq<u8>, n: nat) -> Seq<u8> { if s.len() < n { Seq::empty() } else { s.skip(n as int) } }
pub open spec fn text_of(b: Seq<u8>) -> Seq<char> { if valid_utf8(b) { decode_utf8(b) } else { Seq::empty() } }
/// a string ends at a NUL (or at the end of the file); bytes that are no text are no name
pub open spec fn dec_str(s: Seq<u8>) -> (Seq<char>, Seq<u8>) {
    if s.contains(0u8) { (text_of(cstr(s)), s.skip(cstr_len(s) + 1)) } else { (text_of(s), Seq::empty()) }
}
pub open spec fn dec_vertex(s: Seq<u8>) -> Option<(VertexV, Seq<u8>)> {
    match dec_u32(s) { None => None, Some((point, s)) =>
    match dec_u32(s) { None => None, Some((normal, s)) =>
    match dec_u32(s) { None => None, Some((u, s)) =>
    match dec_u32(s) { None => None, Some((v, s)) => Some((VertexV { point, normal, u, v }, s)) } } } }
}
pub open spec fn dec_point(s: Seq<u8>) -> Option<(PointV, Seq<u8>)> {
    match dec_u32(s) { None => None, Some((x, s)) =>
    match dec_u32(s) { None => None, Some((y, s)) =>
    match dec_u32(s) { None => None, Some((z, s)) =>
    match dec_u32(s) { None => None, Some((flags, s)) => Some((PointV { x, y, z, flags }, s)) } } } }
}
pub open spec fn dec_normal(s: Seq<u8>) -> Option<(NormalV, Seq<u8>)> {
    match dec_u32(s) { None => None, Some((x, s)) =>
    match dec_u32(s) { None => None, Some((y, s)) =>
    match dec_u32(s) { None => None, Some((z, s)) => Some((NormalV { x, y, z }, s)) } } }
}
pub open spec fn dec_list<V>(d: spec_fn(Seq<u8>) -> Option<(V, Seq<u8>)>, s: Seq<u8>, n: nat) -> Option<(Seq<V>, Seq<u8>)>
    decreases n
{
    if n == 0 { Some((Seq::empty(), s)) } else {
        match d(s) { None => None, Some((v, s)) => before(seq![v], dec_list(d, s, (n - 1) as nat)) }
    }
}
pub open spec fn before<V>(a: Seq<V>, r: Option<(Seq<V>, Seq<u8>)>) -> Option<(Seq<V>, Seq<u8>)> {
    match r { None => None, Some((b, s)) => Some((a + b, s)) }
}
pub open spec fn vertex_d() -> spec_fn(Seq<u8>) -> Option<(VertexV, Seq<u8>)> { |s: Seq<u8>| dec_vertex(s) }
pub open spec fn point_d() -> spec_fn(Seq<u8>) -> Option<(PointV, Seq<u8>)> { |s: Seq<u8>| dec_point(s) }
pub open spec fn normal_d() -> spec_fn(Seq<u8>) -> Option<(NormalV, Seq<u8>)> { |s: Seq<u8>| dec_normal(s) }
pub open spec fn face_d() -> spec_fn(Seq<u8>) -> Option<(FaceV, Seq<u8>)> { |s: Seq<u8>| dec_face(s) }
pub open spec fn lod_d() -> spec_fn(Seq<u8>) -> Option<(LodV, Seq<u8>)> { |s: Seq<u8>| dec_lod(s) }
pub open spec fn dec_face(s: Seq<u8>) -> Option<(FaceV, Seq<u8>)> {
    match dec_u32(s) { None => None, Some((n, s)) => if n != 3 && n != 4 { None } else {
    match dec_list(vertex_d(), s, n as nat) { None => None, Some((vertices, s)) => dec_face_end(vertices, s) } } }
}
pub open spec fn dec_face_end(vertices: Seq<VertexV>, s: Seq<u8>) -> Option<(FaceV, Seq<u8>)> {
    match (if vertices.len() == 3 { dec_vertex(s) } else { Some((VertexV { point: 0, normal: 0, u: 0, v: 0 }, s)) }) { None => None, Some((unused, s)) =>
    match dec_u32(s) { None => None, Some((flags, s)) => {
        let (texture, s) = dec_str(s);
        let (material, s) = dec_str(s);
        Some((FaceV { vertices, flags, texture, material }, s)) } } }
}
/// the blocks up to the end mark
pub open spec fn dec_taggs(s: Seq<u8>) -> Option<(Seq<TaggV>, Seq<u8>)>
    decreases s.len() via dec_taggs_decreases
{
    match dec_tagg(s) { None => None, Some((t, r)) =>
        if t.name == eof_name() { Some((Seq::empty(), r)) } else { before(seq![t], dec_taggs(r)) } }
}
pub open spec fn dec_tagg(s: Seq<u8>) -> Option<(TaggV, Seq<u8>)> {
    let (name, s) = dec_str(over(s, 1));
    match dec_u32(s) { None => None, Some((size, s)) =>
    match dec_bytes(s, size as nat) { None => None, Some((data, s)) => Some((TaggV { name, data }, s)) } }
}
pub open spec fn dec_mark(s: Seq<u8>, m: Seq<u8>) -> Option<Seq<u8>> { match dec_bytes(s, 4) { None => None, Some((b, r)) => if b =~= m { Some(r) } else { None } } }
pub struct HeadV { pub major: u32, pub minor: u32, pub np: u32, pub nn: u32, pub nf: u32 }
pub open spec fn dec_head(s: Seq<u8>) -> Option<(HeadV, Seq<u8>)> {
    match dec_mark(s, p3dm()) { None => None, Some(s) =>
    match dec_u32(s) { None => None, Some((major, s)) =>
    match dec_u32(s) { None => None, Some((minor, s)) =>
    match dec_u32(s) { None => None, Some((np, s)) =>
    match dec_u32(s) { None => None, Some((nn, s)) =>
    match dec_u32(s) { None => None, Some((nf, s)) => Some((HeadV { major, minor, np, nn, nf }, over(s, 4))) } } } } } }
}
pub open spec fn dec_lod(s: Seq<u8>) -> Option<(LodV, Seq<u8>)> { match dec_head(s) { None => None, Some((h, s)) => lod_points(h, s) } }
pub open spec fn lod_points(h: HeadV, s: Seq<u8>) -> Option<(LodV, Seq<u8>)> { match dec_list(point_d(), s, h.np as nat) { None => None, Some((p, s)) => lod_normals(h, p, s) } }
pub open spec fn lod_normals(h: HeadV, p: Seq<PointV>, s: Seq<u8>) -> Option<(LodV, Seq<u8>)> { match dec_list(normal_d(), s, h.nn as nat) { None => None, Some((n, s)) => lod_faces(h, p, n, s) } }
pub open spec fn lod_faces(h: HeadV, p: Seq<PointV>, n: Seq<NormalV>, s: Seq<u8>) -> Option<(LodV, Seq<u8>)> { match dec_list(face_d(), s, h.nf as nat) { None => None, Some((f, s)) => lod_mark(h, p, n, f, s) } }
pub open spec fn lod_mark(h: HeadV, p: Seq<PointV>, n: Seq<NormalV>, f: Seq<FaceV>, s: Seq<u8>) -> Option<(LodV, Seq<u8>)> { match dec_mark(s, tagg()) { None => None, Some(s) => lod_taggs(h, p, n, f, s) } }
pub open spec fn lod_taggs(h: HeadV, p: Seq<PointV>, n: Seq<NormalV>, f: Seq<FaceV>, s: Seq<u8>) -> Option<(LodV, Seq<u8>)> { match dec_taggs(s) { None => None, Some((t, s)) => lod_end(h, p, n, f, t, s) } }
pub open spec fn lod_end(h: HeadV, p: Seq<PointV>, n: Seq<NormalV>, f: Seq<FaceV>, t: Seq<TaggV>, s: Seq<u8>) -> Option<(LodV, Seq<u8>)> {
    match dec_u32(s) { None => None, Some((resolution, s)) => Some((LodV { major: h.major, minor: h.minor, resolution, points: p, normals: n, faces: f, taggs: t }, s)) }
}
pub open spec fn dec_p3d(s: Seq<u8>) -> Option<(P3dV, Seq<u8>)> {
    match dec_mark(s, mlod()) { None => None, Some(s) =>
    match dec_u32(s) { None => None, Some((version, s)) =>
    match dec_u32(s) { None => None, Some((n, s)) =>
    match dec_list(lod_d(), s, n as nat) { None => None, Some((lods, s)) => Some((P3dV { version, lods }, s)) } } } }
}
pub proof fn lemma_cstr_len(s: Seq<u8>)
    ensures 0 <= cstr_len(s) <= s.len(), s.contains(0u8) ==> cstr_len(s) < s.len(), !s.contains(0u8) ==> cstr_len(s) == s.len()
    decreases s.len()
{
    if s.len() == 0 { } else if s[0] == 0 { assert(s.contains(0u8)); } else {
        let r = s.skip(1);
        lemma_cstr_len(r);
        assert(s.contains(0u8) ==> r.contains(0u8)) by { if s.contains(0u8) { let i = choose|i: int| 0 <= i < s.len() && s[i] == 0u8; assert(r[i - 1] == 0u8); } }
        assert(r.contains(0u8) ==> s.contains(0u8)) by { if r.contains(0u8) { let i = choose|i: int| 0 <= i < r.len() && r[i] == 0u8; assert(s[i + 1] == 0u8); } }
    }
}
pub proof fn lemma_str_shorter(s: Seq<u8>)
    ensures dec_str(s).1.len() <= s.len()
{ lemma_cstr_len(s); }
#[via_fn]
pub proof fn dec_taggs_decreases(s: Seq<u8>) { lemma_str_shorter(over(s, 1)); }
