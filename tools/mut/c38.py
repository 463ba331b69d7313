A='src/packets/addresses.rs'
I='write!(f, "{}.{}.{}", self.area, self.line, self.address)'
G3='write!(f, "{}/{}/{}", self.main, self.middle, self.sub)'
G2='write!(f, "{}/{}", self.main, self.sub)'
G1='write!(f, "{}", self.main)'
def m(o,n,*more): return [(A,o,n)]+list(more)
def fn(tail): return ("impl fmt::Debug for IndividualAddress {",tail+"\nimpl fmt::Debug for IndividualAddress {")
MUTS=[
('swap','C38',m(I,I.replace('self.line, self.address','self.address, self.line'))),
('pad','C38',m(I,I.replace('{}"','{:03}"'))),
('hex','C38',m(I,I.replace('{}.{}.{}','{}.{:x}.{}'))),
('slash','C38',m(I,I.replace('.{}"','/{}"'))),
('area-if','C38',m(I,'if self.area == 0 { write!(f, "{}.{}", self.line, self.address) } else { '+I+' }')),
('wide','C38',m(I,I.replace('self.area,','self.area & 7,'))),
('signed','C38',m(I,I.replace('self.address','self.address as i8'))),
('g3-dash','C38',m(G3,G3.replace('/{}"','-{}"'))),
('g3-mid','C38',m(G3,'if self.middle == 0 { write!(f, "{}/{}", self.main, self.sub) } else { '+G3+' }')),
('g3-merge','C38',m(G3,'write!(f, "{}/{}", self.main, (self.middle as u16) << 8 | self.sub as u16)')),
('g2-split','C38',m(G2,'write!(f, "{}/{}/{}", self.main, self.sub >> 8, self.sub & 0xff)')),
('g2-cut','C38',m(G2,'write!(f, "{}/{}", self.main, self.sub as u8)')),
('g1-hex','C38',m(G1,'write!(f, "{:#06x}", self.main)')),
('g1-sep','C38',m(G1,'write!(f, "0/{}", self.main)')),
('g1-big','C38',m(G1,'if self.main > 0x7fff { write!(f, "{}", self.main as i16) } else { '+G1+' }')),
('space','C38',m(G3,G3.replace('{}/{}/{}','{}/{}/{} '))),
('struct','C38',m(G2,'f.debug_struct("Group2LevelAddress").field("main", &self.main).field("sub", &self.sub).finish()')),
('plus','C38',m(G1,'write!(f, "{:+}", self.main)')),
('err','C38',m(G1,'if self.main == 0 { return Err(fmt::Error); }\n        '+G1)),
('from-u16','C38',m('line: line as u8,\n            address: address as u8','line: address as u8,\n            address: line as u8')),
# harmless
('ok-fields','',m(I,'let Self { area, line, address } = self;\n        write!(f, "{area}.{line}.{address}")')),
('ok-parts','',m(I,'write!(f, "{}", self.area)?;\n        f.write_str(".")?;\n        write!(f, "{}", self.line)?;\n        f.write_str(".")?;\n        write!(f, "{}", self.address)')),
('ok-dbg','',m(I,I.replace('{}.{}.{}','{:?}.{:?}.{:?}'))),
('ok-format','',m(I,'f.write_str(&format!("{}.{}.{}", self.area, self.line, self.address))')),
('ok-tostr','',m(I,'let area = self.area.to_string();\n        let line = self.line.to_string();\n        write!(f, "{}.{}.{}", area, line, self.address)')),
('ok-display','',m(I,'fmt::Display::fmt(self, f)',fn('''impl fmt::Display for IndividualAddress {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}.{}.{}", self.area, self.line, self.address)
    }
}
'''))) if False else ('ok-char','',m(I,'write!(f, "{}{}{}{}{}", self.area, \'.\', self.line, \'.\', self.address)')),
('ok-helper','',m(G3,'join3(f, "/", self.main, self.middle, self.sub)','X') if False else [(A,G3,'joined(f, \'/\', [self.main, self.middle, self.sub])'),(A,I,'joined(f, \'.\', [self.area, self.line, self.address])'),(A,'impl fmt::Debug for IndividualAddress {','''fn joined(f: &mut fmt::Formatter<'_>, sep: char, parts: [u8; 3]) -> fmt::Result {
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            write!(f, "{}", sep)?;
        }
        write!(f, "{}", p)?;
    }
    Ok(())
}

impl fmt::Debug for IndividualAddress {''')]),
('ok-delegate','',m(G1,'fmt::Display::fmt(&self.main, f)')),
('ok-dispimpl','',[(A,G1,'fmt::Display::fmt(self, f)'),(A,'impl fmt::Debug for Group1LevelAddress {','''impl fmt::Display for Group1LevelAddress {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.to_u16())
    }
}

impl fmt::Debug for Group1LevelAddress {''')]),
('ok-join','',m(G2,'f.write_str(&[self.main.to_string(), self.sub.to_string()].join("/"))')),
('ok-concat','',m(G2,'f.write_str(&(self.main.to_string() + "/" + &self.sub.to_string()))')),
('ok-write-char','',m(G2,'use fmt::Write;\n        write!(f, "{}", self.main)?;\n        f.write_char(\'/\')?;\n        write!(f, "{}", self.sub)')),
]
MUTS+=[
('ok-nested','',[(A,I,'write!(f, "{}.{}", Line(self.area, self.line), self.address)'),(A,'impl fmt::Debug for IndividualAddress {','''struct Line(u8, u8);

impl fmt::Display for Line {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}.{}", self.0, self.1)
    }
}

impl fmt::Debug for IndividualAddress {''')]),
('nested-hex','C38',[(A,I,'write!(f, "{}.{}", Line(self.area, self.line), self.address)'),(A,'impl fmt::Debug for IndividualAddress {','''struct Line(u8, u8);

impl fmt::Display for Line {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}.{:X}", self.0, self.1)
    }
}

impl fmt::Debug for IndividualAddress {''')]),
('helper-last','C38',[(A,I,'joined(f, \'.\', [self.area, self.line, self.address])'),(A,'impl fmt::Debug for IndividualAddress {','''fn joined(f: &mut fmt::Formatter<'_>, sep: char, parts: [u8; 3]) -> fmt::Result {
    for (i, p) in parts.iter().enumerate() {
        if i > 0 && (i < 2 || *p != 0) {
            write!(f, "{}", sep)?;
        }
        write!(f, "{}", p)?;
    }
    Ok(())
}

impl fmt::Debug for IndividualAddress {''')]),
('ok-to-string-concat','',m(G2,'let mut s = self.main.to_string();\n        s.push(\'/\');\n        s.push_str(&self.sub.to_string());\n        f.write_str(&s)')),
]
MUTS+=[
('push-wrong','C38',m(G2,'let mut s = self.main.to_string();\n        s.push(\':\');\n        s.push_str(&self.sub.to_string());\n        f.write_str(&s)')),
('ok-string-write','',m(G2,'use std::fmt::Write;\n        let mut s = String::new();\n        write!(s, "{}", self.main)?;\n        s += "/";\n        write!(&mut s, "{}", self.sub)?;\n        f.pad(&s)')),
]
