E='src/packets/emi.rs'; T='src/packets/tunneling.rs'; A='src/packets/addresses.rs'; P='src/packets/apdu.rs'; D='src/dp_types.rs'; C='src/packets/core.rs'
SEEDS=[
dict(id='s01-lind-len0',property='C01',edits=[(E,"            Ok(len) if len > 0 => len - 1,\n            Ok(_) => 0,\n","            Ok(len) => len - 1,\n")],
 needs='an L_Data indication whose length octet is 0',breaks='the decoder of indications overflows on untrusted input',
 demo='''
use knx_ip_client::packets::emi::{LDataInd, CEMI};
fn main() {
    let cemi = CEMI { msg_code: 0x29, additional_infos: vec![], service_info: vec![0xbc, 0xe0, 0x11, 0x0b, 0x0a, 0x01, 0x00, 0x00, 0x81] };
    let _ = LDataInd::from_cemi(cemi);
}
'''),
dict(id='s02-scaled-zero',property='C02',edits=[(D,"        if self.value == 0 {\n            return 0.0;\n        }\n        (self.value - 1) as f32 / 2.54","        ((self.value - 1) as f32 / 2.54).max(0.0)")],
 needs='a scaled value whose raw octet is 0',breaks='the percentage accessor underflows',
 demo='''
use knx_ip_client::dp_types::{Pdt, PdtKnxScaledValue};
fn main() {
    let v = PdtKnxScaledValue::from_bytes(&[0]).unwrap();
    assert!(PdtKnxScaledValue::get_value(&v) == 0.0);
}
'''),
dict(id='s03-featureresp-kind',property='C06',edits=[(T,"ensure_whatever!(code == 0x0423, ","ensure_whatever!(code & 0xfffd == 0x0421, ")],
 needs='an ack-numbered frame with the layout of a feature response',breaks='the feature response decoder accepts service 0x0421',
 demo='''
use knx_ip_client::packets::tunneling::FeatureResp;
use std::io::Cursor;
fn main() {
    let p = [6u8, 0x10, 4, 0x21, 0, 0x0d, 4, 1, 2, 0, 8, 0, 1];
    assert!(FeatureResp::from_packet(&mut Cursor::new(&p[..])).is_err());
    let p = [6u8, 0x10, 4, 0x23, 0, 0x0d, 4, 1, 2, 0, 8, 0, 1];
    assert!(FeatureResp::from_packet(&mut Cursor::new(&p[..])).is_ok());
}
'''),
dict(id='s04-ack-status-default',property='C07',edits=[(T,"""        let status = match packet_reader.read_u8() {
            Ok(status) => status,
            Err(e) => whatever!("Unable to read status {:?}", e),
        };

        Ok(Self {
            communication_channel_id,
            sequence_nr,
            status,
        })""","""        let status = packet_reader.read_u8().unwrap_or_default();

        Ok(Self {
            communication_channel_id,
            sequence_nr,
            status,
        })""")],
 needs='an ack cut off before its status octet',breaks='a truncated ack is completed with status 0',
 demo='''
use knx_ip_client::packets::tunneling::TunnelingAck;
use std::io::Cursor;
fn main() {
    let p = [6u8, 0x10, 4, 0x21, 0, 0x0a, 4, 1, 2];
    assert!(TunnelingAck::from_packet(&mut Cursor::new(&p[..])).is_err());
}
'''),
dict(id='s05-ind-line-mask',property='C25',edits=[(A,"let line = (0x0f00 & addr) >> 8;","let line = (0x0f00 & addr) >> 8 & 0x07;")],
 needs='an individual address with line 8 or higher',breaks='decoding loses the top bit of the line',
 demo='''
use knx_ip_client::packets::addresses::IndividualAddress;
fn main() {
    for n in 0..=0xffffu16 { assert_eq!(IndividualAddress::from_u16(n).to_u16(), n); }
}
'''),
dict(id='s06-b1u3-step',property='C27',edits=[(D,"""        let value = b.get(0).with_whatever_context(|| "Should have at least one byte")?;
        Ok(Self {
            code: "3.x".to_string(),
            bit: (value & 8) > 0,
            step: value & 0b111,""","""        let value = b.get(0).with_whatever_context(|| "Should have at least one byte")?;
        Ok(Self {
            code: "3.x".to_string(),
            bit: value > &8,
            step: value & 0b111,""")],
 needs='the stop value: control bit set and step 0',breaks='octet 0x08 decodes to 0x00',
 demo='''
use knx_ip_client::dp_types::{Pdt, PdtKnxB1U3};
fn main() {
    for v in 0..16u8 {
        let x = PdtKnxB1U3::general(v);
        assert_eq!(PdtKnxB1U3::from_bytes(&x.get_bytes()).unwrap().get_value(), v);
    }
}
'''),
dict(id='s07-apdu-small-mask',property='C29',edits=[(P,"apci_packet[1] |= data & 0x3f","apci_packet[1] |= data & 0x7f")],
 needs='small data with bit 6 set',breaks='the payload changes the service code of the telegram',
 demo='''
use knx_ip_client::packets::apdu::APDU;
fn main() {
    for v in 0..=255u8 {
        let p = APDU::group_value_write(vec![v], true).packet();
        assert_eq!(p, vec![0, 0x80 | (v & 0x3f)]);
    }
}
'''),
dict(id='s08-con-confirm',property='C34',edits=[(E,"let confirm = (control1 & 1) == 0;","let confirm = control1 & 0b11 == 0;")],
 needs='a positive confirmation with the ack-request bit set',breaks='a positive confirmation is decoded as negative',
 demo='''
use knx_ip_client::packets::emi::{LDataCon, CEMI};
fn main() {
    for c in 0..=255u8 {
        let cemi = CEMI { msg_code: 0x2e, additional_infos: vec![], service_info: vec![c, 0xe0, 0x11, 0x0b, 0x0a, 0x01, 0x01, 0x00, 0x81] };
        assert_eq!(LDataCon::from_cemi(cemi).unwrap().confirm, c & 1 == 0);
    }
}
'''),
dict(id='s09-dib-type-range',property='C26',edits=[(C,"            0xFE => Ok(Self::ManufacturerData),","            0xFE | 0xFF => Ok(Self::ManufacturerData),")],
 needs='a description block with type octet 0xFF',breaks='an octet that is no code converts to a variant',
 demo='''
use knx_ip_client::packets::core::DescriptionTypeCode;
fn main() {
    let n = (0..=255u8).filter(|x| DescriptionTypeCode::try_from(*x).is_ok()).count();
    assert_eq!(n, 6);
    for x in 0..=255u8 { if let Ok(c) = DescriptionTypeCode::try_from(x) { assert_eq!(c as u8, x); } }
}
'''),
dict(id='s10-connreq-size',property='C04',edits=[(C,"        let mut packet_size = 6;\n        packet_size += control_endpoint_packet.len();\n        packet_size += data_endpoint_packet.len();\n        packet_size += cri_packet.len();","        let mut packet_size = 6;\n        packet_size += control_endpoint_packet.len();\n        packet_size += control_endpoint_packet.len();\n        packet_size += 3.max(cri_packet.len() - 1);")],
 needs='any connect request whose device checks the total length',breaks='the total length of a connect request is one octet short',
 demo='''
use knx_ip_client::packets::core::ConnectionRequest;
fn main() {
    for r in [ConnectionRequest::tunnel(), ConnectionRequest::busmonitor()] {
        let p = r.packet();
        assert_eq!(u16::from_be_bytes([p[4], p[5]]) as usize, p.len());
    }
}
'''),
]
