C='src/packets/core.rs'
PRE='''
use knx_ip_client::packets::core::*;
use knx_ip_client::packets::addresses::IndividualAddress;
use std::net::Ipv4Addr;

fn block(name: &str) -> Result<DeviceInformationDIB, String> {
    DeviceInformationDIB::new(54, KnxMedium::TP1, DeviceStatus::empty(), IndividualAddress::try_from("1.1.0").unwrap(), 0, [0; 6], Ipv4Addr::new(224, 0, 23, 12), [0; 6], name.to_string()).map_err(|e| e.to_string())
}
'''
SEEDS=[
dict(id='x01-name-replace',property='C37',edits=[(C,"""            .encode(&friendly_name, EncoderTrap::Strict)
            .whatever_context("Unable to encode device friendly name")?;""","""            .encode(&friendly_name, EncoderTrap::NcrEscape)
            .whatever_context("Unable to encode device friendly name")?;""")],
 needs='a name with a character that ISO 8859-1 does not have',breaks='the device gets another name (the character escaped) instead of an error',
 demo=PRE+'''
fn main() {
    assert_eq!(block("B\\u{fc}ro").unwrap().friendly_name().unwrap().trim_end_matches('\\0'), "B\\u{fc}ro");
    assert!(block("Zone \\u{2192} 3").is_err(), "name with an arrow is accepted");
}
'''),
dict(id='x02-name-utf8',property='C37',edits=[(C,"""        ISO_8859_1
            .decode(&self.friendly_name[..end], DecoderTrap::Strict)
            .whatever_context("Unable to decode friendly name")
""","""        let name = &self.friendly_name[..end];
        if name.iter().all(|c| c.is_ascii_graphic() || *c == b' ') {
            return Ok(name.iter().map(|c| *c as char).collect());
        }
        ISO_8859_1
            .decode(name, DecoderTrap::Strict)
            .map(|name| name.trim().to_string())
            .whatever_context("Unable to decode friendly name")
""")],
 needs='a name with characters beyond ASCII that begins or ends with white space (0xA0, 0x85 count)',breaks='white space at the ends is lost',
 demo=PRE+'''
fn main() {
    for n in ["Router", " a ", "B\\u{fc}ro", "K\\u{fc}che ", "\\u{a0}x"] {
        assert_eq!(block(n).unwrap().friendly_name().unwrap(), n);
    }
}
'''),
]
