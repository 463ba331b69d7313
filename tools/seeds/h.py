C='src/packets/core.rs'
TU='src/packets/tunneling.rs'
SEEDS=[
dict(id='z01-ipconfig-swap',property='C39',edits=[(C,"""        packet.write_u8(self.ip_capabilities).unwrap();
        packet.write_u8(self.ip_assignment_method).unwrap();""","""        packet.write_u8(self.ip_assignment_method).unwrap();
        packet.write_u8(self.ip_capabilities).unwrap();"""),(C,"""        let ip_capabilities = packet_reader.read_u8().whatever_context("Unable to read ip capabilities")?;
        let ip_assignment_method = packet_reader.read_u8().whatever_context("Unable to read ip assignment method")?;
""","""        let ip_assignment_method = packet_reader.read_u8().whatever_context("Unable to read ip assignment method")?;
        let ip_capabilities = packet_reader.read_u8().whatever_context("Unable to read ip capabilities")?;
""")],
 needs='an IP configuration block whose capabilities differ from its assignment method; encoder and decoder agree with each other',breaks='both are exchanged on the wire',
 demo='''
use knx_ip_client::packets::core::*;
use std::io::Cursor;
fn main() {
    let b = [16u8, 3, 192, 168, 1, 10, 255, 255, 255, 0, 192, 168, 1, 1, 2, 4];
    match DIB::from_packet(&mut Cursor::new(&b[..])).unwrap() {
        DIB::IpConfig(c) => {
            assert_eq!(c.default_gateway.octets(), [192, 168, 1, 1]);
            assert_eq!((c.ip_capabilities, c.ip_assignment_method), (2, 4));
        }
        _ => panic!(),
    }
}
'''),
dict(id='z02-feature-value',property='C39',edits=[(TU,"""        packet.write_u8(self.feature as u8).unwrap();
        packet.write_u8(0).unwrap();
        packet.write_u8(self.value).unwrap();""","""        packet.write_u8(self.feature as u8).unwrap();
        packet.write_u8(self.value >> 4).unwrap();
        packet.write_u8(self.value & 0x0f).unwrap();""")],
 needs='a feature set to a value above 15',breaks='the device is sent another value',
 demo='''
use knx_ip_client::packets::tunneling::*;
fn main() {
    let p = FeatureSet::new(7, 9, KnxIpFeature::InfoServiceEnable, 1).packet();
    assert_eq!(p, [6, 16, 4, 0x24, 0, 13, 4, 7, 9, 0, 8, 0, 1]);
    let p = FeatureSet::new(7, 9, KnxIpFeature::IndividualAddress, 0xfe).packet();
    assert_eq!(p, [6, 16, 4, 0x24, 0, 13, 4, 7, 9, 0, 6, 0, 0xfe]);
}
'''),
]
