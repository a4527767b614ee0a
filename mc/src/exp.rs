pub fn main() {
    use crate::{checks::api::*, hist::*, world::*};
    use keyhive_core::access::Access::*;
    let h = vec![
        Act::Group { by: 1, with: vec![p(2)] },
        Act::Doc { by: 1, with: vec![] },
        Act::Add { by: 1, who: Who::R(0), res: 1, can: Edit },
        Act::All,
        Act::Add { by: 1, who: p(2), res: 0, can: Edit },
        Act::Revoke { by: 2, who: p(2), res: 0, retain: false },
        Act::Push { from: 1, to: 2 },
        Act::Add { by: 2, who: p(1), res: 0, can: Edit },
        Act::All,
        Act::Enc { by: 1, res: 1 },
        Act::All,
    ];
    crate::det::run(0, || crate::exec::block_on(async {
        let mut s = Sys::new(3, false).await;
        for a in h {
            let r = s.apply(&a).await;
            println!("{a} {r:?} {:?}", s.direct(1, 0).await);
        }
        for i in 1..=3 { println!("{i} reads {:?}", s.decrypt(i, 0).await); }
    })).unwrap();
}
