C='src/packets/core.rs'
TU='src/packets/tunneling.rs'
def m(o,n,f=C): return [(f,o,n)]
MUTS=[
('cri-order','C39',m('vec![4, 4, self.connection_type, 0]','vec![4, 4, 0, self.connection_type]')),
('cri-type','C39',m('vec![4, 4, self.connection_type, 0]','vec![4, 3, self.connection_type, 0]')),
('raw-busmon','C39',m('connection_type: TUNNEL_BUSMONITOR,','connection_type: TUNNEL_RAW,')),
('tcp-udp','C39',m('host_protocol_code: HPAI_IPV4_TCP,','host_protocol_code: HPAI_IPV4_UDP,')),
('search-port','C39',m('SocketAddrV4::new(SYSTEM_MULTICAST_ADDRESS, DISCOVERY_ENDPOINT_PORT)','SocketAddrV4::new(SYSTEM_MULTICAST_ADDRESS, 0)')),
('unicast-any','C39',m('discovery_endpoint.set_addr(unicast_endpoint);','discovery_endpoint.set_addr(SocketAddrV4::new(*unicast_endpoint.ip(), DISCOVERY_ENDPOINT_PORT));')),
('connreq-one','C39',m('packet.append(&mut data_endpoint_packet);\n        packet.append(&mut cri_packet);','packet.append(&mut cri_packet);\n        packet.append(&mut data_endpoint_packet);')),
('feature-swap','C39',m('packet.write_u8(self.feature as u8).unwrap();\n        packet.write_u8(0).unwrap();\n        packet.write_u8(self.value).unwrap();','packet.write_u8(self.feature as u8).unwrap();\n        packet.write_u8(self.value).unwrap();\n        packet.write_u8(0).unwrap();',TU)),
('feature-svc','C39',m('0x04, 0x24, 0, 0x0d','0x04, 0x22, 0, 0x0d',TU)),
('status-chan','C39',m('pub fn get_status(&self) -> u8 {\n        self.status','pub fn get_status(&self) -> u8 {\n        self.communication_channel_id')),
# harmless
('ok-array','',m('vec![4, 4, self.connection_type, 0]','let mut p = Vec::with_capacity(4);\n        p.extend_from_slice(&[4, 4]);\n        p.push(self.connection_type);\n        p.push(0);\n        p')),
('ok-chain','',m('packet.append(&mut control_endpoint_packet);\n        packet.append(&mut data_endpoint_packet);\n        packet.append(&mut cri_packet);','packet.extend(control_endpoint_packet.drain(..));\n        packet.extend(data_endpoint_packet.iter());\n        packet.extend_from_slice(&cri_packet);\n        cri_packet.clear();')),
('ok-feature','',m('let mut packet = vec![0x06, 0x10, 0x04, 0x24, 0, 0x0d];\n        packet.write_u8(4).unwrap();\n        packet.write_u8(self.communication_channel_id).unwrap();\n        packet.write_u8(self.sequence_nr).unwrap();\n        packet.write_u8(0).unwrap();','let mut packet = vec![0x06, 0x10, 0x04, 0x24, 0, 0x0d, 4, self.communication_channel_id, self.sequence_nr, 0];',TU)),
('ok-fam','',m('''        for _ in 0..(structure_length - 2) / 2 {
            // -2 because of length and type
            let service_family = packet_reader.read_u8().whatever_context("Unable to read service family")?;
            let version: u8 = packet_reader.read_u8().whatever_context("Unable to read version")?;
            service_families.push(ServiceFamily { service_family, version });
        }
''','''        let mut left = structure_length - 2;
        while left >= 2 {
            let mut pair = [0u8; 2];
            packet_reader.read_exact(&mut pair).whatever_context("Unable to read service family")?;
            let [service_family, version] = pair;
            service_families.push(ServiceFamily { service_family, version });
            left -= 2;
        }
''')),
('fam-swap','C39',[(C,'service_families.push(ServiceFamily { service_family, version });','service_families.push(ServiceFamily { service_family: version, version: service_family });'),(C,'''            packet.write_u8(service_family.service_family).unwrap();
            packet.write_u8(service_family.version).unwrap();
''','''            packet.write_u8(service_family.version).unwrap();
            packet.write_u8(service_family.service_family).unwrap();
''')]),
('dev-helper','',m('let mut serial_number = [0; 6];\n        packet_reader.read_exact(&mut serial_number).whatever_context("Unable to read serial number")?;','let mut serial_number = [0; 6];\n        for b in serial_number.iter_mut() {\n            *b = packet_reader.read_u8().whatever_context("Unable to read serial number")?;\n        }')),
('mac-serial','C39',m('            serial_number,\n            routing_multicast_address: Ipv4Addr::from(routing_multicast_address),\n            mac_address,\n            friendly_name,\n        })\n    }\n}','            serial_number: mac_address,\n            routing_multicast_address: Ipv4Addr::from(routing_multicast_address),\n            mac_address: serial_number,\n            friendly_name,\n        })\n    }\n}')),
]
S='''        packet.extend_from_slice(&self.subnet_mask.octets());
        packet.extend_from_slice(&self.default_gateway.octets());
        packet.write_u8(self.ip_capabilities).unwrap();'''
MUTS+=[
('cap-swap','C39',m('            ip_capabilities,\n            ip_assignment_method,\n','            ip_capabilities: ip_assignment_method,\n            ip_assignment_method: ip_capabilities,\n')),
('gw-swap','C39',m('            subnet_mask,\n            default_gateway,\n','            subnet_mask: default_gateway,\n            default_gateway: subnet_mask,\n')),
('proj-le','C39',m('.read_u16::<BigEndian>()\n            .whatever_context("Unable to read project','.read_u16::<byteorder::LittleEndian>()\n            .whatever_context("Unable to read project')),
('ia-le','C39',m('.read_u16::<BigEndian>()\n            .whatever_context("Unable to read knx individual address")?;\n        let knx_individual_address = IndividualAddress::from_u16(knx_individual_address);\n\n        let project','.read_u16::<byteorder::LittleEndian>()\n            .whatever_context("Unable to read knx individual address")?;\n        let knx_individual_address = IndividualAddress::from_u16(knx_individual_address);\n\n        let project')),
('hpai-port','C39',m('HPAI::udp();\n        discovery_endpoint.set_addr(unicast_endpoint)','HPAI::tcp();\n        discovery_endpoint.set_addr(unicast_endpoint)')),
]
