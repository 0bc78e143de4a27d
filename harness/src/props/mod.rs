use crate::ctx::*;
pub type One = fn(&mut Rng, u64, &mut Case) -> R;
mod c01;
mod c03;
mod c04;
mod c05;
mod c07;
mod c12;
mod c14;
mod c15;
mod c17;
mod c18;
mod c19;
mod c21;
mod c22;
mod c24;
mod c23;
mod c27;
mod c28;
mod c29;
mod c26;
mod c30;
mod c31;
mod c33;
mod c34;
mod c36;
mod c39;
/// C30: the generators of the properties whose functions use unchecked access; only an unchecked access outside its image counts
pub fn unchecked(r: &mut Rng, i: u64, c: &mut Case) -> R {
    let fs: [One; 23] = [
        c05::integral, c05::boxf, c07::median, c07::linear, c12::transforms, c15::labels, c15::forest, c17::suppress, c17::seams, c18::fast, c19::one, c21::edges, c22::template,
        c23::haar, c26::one, c28::contrast, c27::shift, c30::lines, c30::bilateral, c30::warps, c30::orb, c12::binary, c30::descr,
    ];
    let k = (i % fs.len() as u64) as usize;
    let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fs[k](r, i / fs.len() as u64, c)));
    c.known.clear();
    match out {
        Ok(_) => Ok(()),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if m.starts_with("UNCHECKED ACCESS") || m.contains("in_bounds(") { Err(m) } else { Ok(()) }
        }
    }
}
pub fn get(p: &str) -> Option<One> {
    Some(match p {
        "C01" => c01::one,
        "C02" => c01::two,
        "C03" => c03::one,
        "C18" => c18::both,
        "C19" => c19::one,
        "C27" => c27::shift,
        "C26" => c26::one,
        "C04" => c04::one,
        "C05" => c05::integral,
        "C06" => c05::boxf,
        "C07" => c07::median,
        "C08" => c07::linear,
        "C09" => c05::thresh,
        "C10" => c05::stats,
        "C11" => c05::maps,
        "C12" => c12::transforms,
        "C13" => c12::binary,
        "C14" => c14::gray,
        "C15" => c15::labels,
        "C16" => c15::forest,
        "C17" => c17::suppress,
        "C20" => c17::seams,
        "C22" => c22::template,
        "C23" => c23::haar,
        "C28" => c28::contrast,
        "C29" => c29::layout,
        "C21" => c21::edges,
        "C24" => c24::shapes,
        "C25" => c24::flood,
        "C30" => unchecked,
        "C33" => c33::shapes,
        "C35" => c30::lines,
        "C31" => c31::contours,
        "C34" => c34::geometry,
        "C36" => c36::noise,
        "C38" => c36::otsu,
        "C37" => c30::bilateral,
        "C32" => c30::warps,
        "C39" => c39::projections,
        _ => return None,
    })
}
