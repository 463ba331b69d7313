A='src/packets/addresses.rs'
PRE='''
use knx_ip_client::packets::addresses::*;

fn check(text: &str) {
    let a = IndividualAddress::try_from(text).unwrap();
    assert_eq!(format!("{:?}", a), text);
}
'''
SEEDS=[
dict(id='y01-coupler',property='C38',edits=[(A,"""        write!(f, "{}.{}.{}", self.area, self.line, self.address)""","""        write!(f, "{}.{}", self.area, self.line)?;
        if self.address != 0 {
            write!(f, ".{}", self.address)?;
        }
        Ok(())""")],
 needs='the address of a coupler, device number 0',breaks='it prints as area.line, which is not an address',
 demo=PRE+'''
fn main() {
    for t in ["1.2.3", "15.15.255", "0.0.1"] { check(t); }
    check("1.1.0");
}
'''),
dict(id='y02-two-level',property='C38',edits=[(A,"""        write!(f, "{}/{}", self.main, self.sub)""","""        write!(f, "{}/{:02}", self.main, self.sub)""")],
 needs='a two-level group address with a sub group below 10',breaks='the part is printed with a leading zero',
 demo='''
use knx_ip_client::packets::addresses::*;
fn main() {
    for (m, s) in [(1u8, 2047u16), (31, 255), (1, 10), (1, 2)] {
        match KnxAddress::group_2_level(m, s) {
            KnxAddress::Group2Level(a) => assert_eq!(format!("{:?}", a), format!("{}/{}", m, s)),
            _ => panic!(),
        }
    }
}
'''),
]
