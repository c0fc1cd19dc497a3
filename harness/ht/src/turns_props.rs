//! T10: parsing depends on the text alone.
use crate::{magnet, metainfo, text};
use engine::turns;
use engine::{show, Ctx, Prop, R};

fn t10(c: &mut Ctx) -> R {
    match c.s.weighted(&[5, 4, 2, 3]) {
        0 => magnet::in_turn(c, magnet::Aspect::All),
        1 => {
            let doc = metainfo::valid(&mut c.s);
            c.label("torrents");
            let whole = doc.clone();
            turns::twins(c, doc, |d| metainfo::in_turn(d, d == whole))
        }
        2 => {
            c.label("text");
            let m = c.s.blob(200);
            turns::twins(c, m, text::all)
        }
        _ => {
            // a link, a torrent and a text, each between the others
            let doc = metainfo::valid(&mut c.s);
            let text = c.s.blob(100);
            let link = magnet::spec(&mut c.s);
            let other = magnet::vary(&mut c.s, &link);
            let links = [link, other];
            let uris: Vec<Vec<u8>> = links.iter().map(|l| l.uri().into_bytes()).collect();
            let mut all = uris.clone();
            for b in [doc, text] {
                all.extend(turns::family(&mut c.s, b, 1));
            }
            let docs = all.iter().skip(uris.len()).take(1).cloned().collect::<Vec<_>>();
            let kinds: Vec<usize> = (0..all.len()).map(|i| if i < 2 { 0 } else { 1 }).collect();
            let st = turns::steps(&mut c.s, 1, all.len());
            c.label("of every kind");
            c.key(&(&all, &st.steps, st.place, st.threads));
            c.nontrivial(true);
            c.show(|| format!("{:?}: {}", st, all.iter().map(|a| show(a)).collect::<Vec<_>>().join(", ")));
            st.run(c, &all, |_, a, b| match kinds[a] {
                0 => magnet::check(&links[a], b, magnet::Aspect::All),
                _ => {
                    metainfo::in_turn(b, docs.iter().any(|d| d == b))?;
                    text::all(b)
                }
            })
        }
    }
}
pub const T10: Prop = Prop {
    id: "T10",
    rule: "histories of three to ten calls on related arguments: magnet links that differ in one digit of the hash, one character, one entry or the order of two; torrent documents and texts with a byte changed, two swapped, same sum, same start and end, cut or extended; repeats; half with every argument in the same place in memory, some on two to four threads at once, some mixing all kinds; each call judged from its argument alone. Non-trivial: all.",
    assumptions: &["the references of T01 to T06 and S01 to S03"],
    quick: 150_000,
    thorough: 6_000_000,
    case: t10,
    phases: &[],
    terminates: true,
    extra: None,
};
