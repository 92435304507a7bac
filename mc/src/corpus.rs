//! Fixed documents that together use every feature of the parser; used as
//! starting points by several suites.

pub const NS: &str = "xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'";

pub fn docs() -> &'static [&'static str] { DOCS }

static DOCS: &[&str] = &[
    "<svg xmlns='http://www.w3.org/2000/svg'/>",
    "<svg xmlns='http://www.w3.org/2000/svg'><g><rect/><!--c--></g><!-- d --><path d='M 1 2 L 3 4'/></svg>",
    "<!--before--><svg xmlns='http://www.w3.org/2000/svg'/><!--after-->",
    "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'><defs><linearGradient id='a'/><linearGradient id='b' xlink:href='#a'/></defs><rect id='r' fill='url(#b) red' stroke='url(#a)' clip-path='url(#c)'/><clipPath id='c'><use xlink:href='#r2'/></clipPath><rect id='r2'/></svg>",
    "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'><linearGradient id='a' xlink:href='#b'/><linearGradient id='b' xlink:href='#a'/><g id='g' mask='url(#g)'/></svg>",
    "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink'><g id='a' xlink:href='#b'/><g id='b' xlink:href='#c'/><g id='c' xlink:href='#a'/></svg>",
    "<svg xmlns='http://www.w3.org/2000/svg'><style>rect{fill:red} .c{stroke:blue;marker:url(#m)} #i:first-child{opacity:0.5}</style><rect class='c d' id='i' style='fill:green;stroke-width:2'/><marker id='m'/></svg>",
    "<svg xmlns='http://www.w3.org/2000/svg'><text> a <tspan> b </tspan> c <tspan xml:space='preserve'>  d\n e  </tspan></text><text xml:space='preserve'> x\ty </text></svg>",
    "<svg xmlns='http://www.w3.org/2000/svg'><text x='1 2 3' y='10' rotate='1,2'>t</text><polygon points='1 2 3 4'/><g transform='translate(1 2) rotate(30)' font-family=\"'A B', C\"/></svg>",
    "<svg xmlns='http://www.w3.org/2000/svg' viewBox='0 0 10 20' preserveAspectRatio='xMidYMid slice'><glyph unicode='&amp;'/><rect width='bad' height='10mm'/></svg>",
    "<s:svg xmlns:s='http://www.w3.org/2000/svg' xmlns:x='http://www.w3.org/1999/xlink'><s:g id='a'/><s:use x:href='#a'/><rect/></s:svg>",
    "<svg xmlns='http://www.w3.org/2000/svg'><unknown><rect/></unknown><g xmlns='other'/><style type='other'>*{fill:red}</style></svg>",
    "<!DOCTYPE svg [<!ENTITY e 'val'><!ENTITY f '<g/>']><svg xmlns='http://www.w3.org/2000/svg' id='&e;'><text>&e;</text>&f;</svg>",
    "<g xmlns='http://www.w3.org/2000/svg'/>",
    "<svg/>",
    "<svg xmlns='http://www.w3.org/2000/svg'",
    "",
    "text",
];
