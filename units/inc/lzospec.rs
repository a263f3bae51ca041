// What an LZO1X stream stands for.  Positions and lengths are mathematical integers.
global size_of usize == 8;

pub enum St {
    Fail,
    Done(Seq<u8>),
    Go { ip: int, o: Seq<u8>, st: int },
}

/// number of zero bytes from position p on
pub open spec fn zeros(inp: Seq<u8>, p: int) -> int
    decreases inp.len() - p
{
    if 0 <= p < inp.len() && inp[p] == 0 { 1 + zeros(inp, p + 1) } else { 0 }
}
pub open spec fn zmax() -> int { 0xffff_ffff_ffff_ffffint / 255 - 2 }

/// n bytes copied from `d` positions back, byte by byte
pub open spec fn copyk(o: Seq<u8>, d: int, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { o } else { let p = copyk(o, d, n - 1); p.push(p[p.len() - d]) }
}
pub open spec fn do_lit(inp: Seq<u8>, ip: int, o: Seq<u8>, n: int, st: int, cap: int) -> St {
    if ip + n + 3 > inp.len() || o.len() + n > cap { St::Fail }
    else { St::Go { ip: ip + n, o: o + inp.subrange(ip, ip + n), st: st } }
}
pub open spec fn do_match(inp: Seq<u8>, ip: int, o: Seq<u8>, d: int, n: int, next: int, cap: int) -> St {
    if d > o.len() || o.len() + n > cap { St::Fail }
    else { do_lit(inp, ip, copyk(o, d, n), next, next, cap) }
}
/// the end of a length that is continued in a run of zero bytes at p: (length, position after), or none
pub open spec fn longlen(inp: Seq<u8>, p: int) -> Option<(int, int)> {
    let z = zeros(inp, p);
    if p + z >= inp.len() || z > zmax() { None } else { Some((255 * z + inp[p + z], p + z + 1)) }
}
pub open spec fn le(inp: Seq<u8>, p: int) -> int { inp[p] + 256 * inp[p + 1] }

pub open spec fn step(inp: Seq<u8>, ip: int, o: Seq<u8>, st: int, cap: int) -> St {
    if ip + 3 > inp.len() { St::Fail }
    else {
        let t = inp[ip] as int;
        let b = inp[ip + 1] as int;
        if t < 16 && st == 0 {
            if t == 0 {
                match longlen(inp, ip + 1) {
                    None => St::Fail,
                    Some((l, p)) => do_lit(inp, p, o, l + 18, 4, cap),
                }
            } else { do_lit(inp, ip + 1, o, t + 3, 4, cap) }
        } else if t < 16 && st != 4 {
            do_match(inp, ip + 2, o, 1 + t / 4 + 4 * b, 2, t % 4, cap)
        } else if t < 16 {
            do_match(inp, ip + 2, o, 0x801 + t / 4 + 4 * b, 3, t % 4, cap)
        } else if t >= 64 {
            do_match(inp, ip + 2, o, 1 + (t / 4) % 8 + 8 * b, t / 32 + 1, t % 4, cap)
        } else if t >= 32 {
            match if t % 32 == 0 { longlen(inp, ip + 1) } else { Some((0, ip + 1)) } {
                None => St::Fail,
                Some((l, p)) => {
                    let n = if t % 32 == 0 { l + 33 } else { t % 32 + 2 };
                    if p + 2 > inp.len() { St::Fail }
                    else { do_match(inp, p + 2, o, 1 + le(inp, p) / 4, n, le(inp, p) % 4, cap) }
                }
            }
        } else {
            match if t % 8 == 0 { longlen(inp, ip + 1) } else { Some((0, ip + 1)) } {
                None => St::Fail,
                Some((l, p)) => {
                    let n = if t % 8 == 0 { l + 9 } else { t % 8 + 2 };
                    if p + 2 > inp.len() { St::Fail }
                    else {
                        let d = (t / 8 % 2) * 0x4000 + le(inp, p) / 4;
                        if d == 0 { if n == 3 && p + 2 == inp.len() { St::Done(o) } else { St::Fail } }
                        else { do_match(inp, p + 2, o, d + 0x4000, n, le(inp, p) % 4, cap) }
                    }
                }
            }
        }
    }
}

pub open spec fn run(inp: Seq<u8>, ip: int, o: Seq<u8>, st: int, cap: int) -> Option<Seq<u8>>
    decreases inp.len() - ip
{
    match step(inp, ip, o, st, cap) {
        St::Fail => None,
        St::Done(o2) => Some(o2),
        St::Go { ip: ip2, o: o2, st: st2 } => if ip2 > ip && ip2 <= inp.len() { run(inp, ip2, o2, st2, cap) } else { None },
    }
}
/// The data a stream stands for in a buffer of `cap` bytes; none if the stream is malformed or too long.
pub open spec fn decode(inp: Seq<u8>, cap: int) -> Option<Seq<u8>> {
    if inp.len() < 3 { None }
    else if inp[0] > 17 {
        let n = inp[0] - 17;
        match do_lit(inp, 1, Seq::empty(), n, if n < 4 { n } else { 4 }, cap) {
            St::Go { ip, o, st } => run(inp, ip, o, st, cap),
            _ => None,
        }
    } else { run(inp, 0, Seq::empty(), 0, cap) }
}
