mod atnc;
mod kit;
use kit::*;
fn main() {
    let g = grammar("A : 'ab' [0-9]+ ; B : 'a' 'b'? ; WS : [ \n]+ -> skip ; C : '/*' .*? '*/' -> channel(2) ;", true);
    let c = g.cache();
    println!("{:?}", lex(&g, &c, "ab12 ab a/*x*/*/"));
    let g = grammar("s : e EOF ; e : e M e | > e P e | e Q | N e | A | B s C ;", false);
    let c = g.cache();
    for s in ["APAMA", "APAPAQ", "NAMA", "AA", ""] {
        let o = parse(&g, &c, s);
        println!("{} {} {:?} {:?}", s, o.tree, o.errs, o.diags);
    }
}
