%# which contracts and lemmas decide which property
%property C01: addr::Ipv4Address::to_bytes addr::Ipv4Address::from_bytes addr::Ipv6Address::to_bytes addr::Ipv6Address::from_bytes addr::Ipv6Address::to_chunks addr::Ipv6Address::from_chunks addr::Ipv4Address::bitwise_negate addr::Ipv6Address::bitwise_negate addr::Ipv4Address::count_ones addr::Ipv4Address::count_zeros addr::Ipv6Address::count_ones addr::Ipv6Address::count_zeros addr::Ipv4Address::bitand addr::Ipv4Address::bitor addr::Ipv4Address::bitxor addr::Ipv6Address::bitand addr::Ipv6Address::bitor addr::Ipv6Address::bitxor addr::Ipv4Address::byte_count addr::Ipv6Address::byte_count addr::Ipv4Address::new addr::Ipv6Address::new derive:addr::Ipv4Address derive:addr::Ipv6Address lemma:laws
%property C02: addr::Ipv4Address::add_addr addr::Ipv4Address::add_offset addr::Ipv4Address::subtract_addr addr::Ipv4Address::subtract_offset addr::Ipv4Address::add_internal addr::Ipv6Address::add_addr addr::Ipv6Address::add_offset addr::Ipv6Address::subtract_addr addr::Ipv6Address::subtract_offset addr::Ipv6Address::add_internal addr::Ipv6Address::sub_internal
%property C03: cidr::prefix_from_subnet_mask_bytes cidr::subnet_mask_bytes_from_prefix table:lemma_mask_table table:lemma_cidr_table
%property C04: bit_manip::bytes_to_bits bit_manip::bits_to_bytes bit_manip::bytes_to_binary bit_manip::unravel_address bit_manip::weave_address lemma:lemma_weave_unravel lemma:lemma_unravel_weave
%property C05: net::IpNetwork::new_with_mask net::IpNetwork::new_with_prefix net::IpNetwork::new_with_mask_strict net::IpNetwork::new_with_prefix_strict net::IpNetwork::base_addr net::IpNetwork::subnet_mask net::IpNetwork::cidr_prefix net::IpNetwork::cisco_wildcard
%property C06: net::IpNetwork::first_host_addr net::IpNetwork::last_host_addr net::IpNetwork::broadcast_addr net::IpNetwork::next_subnet_base_addr net::IpNetwork::last_addr_of_subnet
%property C07: net::IpNetwork::contains net::IpNetwork::is_superset_of net::IpNetwork::is_subset_of net::IpNetwork::intersects lemma:lemma_superset lemma:lemma_intersect
%property C08: net::IpNetwork::address_count net::IpNetwork::host_count
%property C09: cmds::derange::range_to_subnets cmds::derange::derange lemma:lemma_chain lemma:lemma_fewest net::IpNetwork::fmt lemma:lemma_net_text4 lemma:lemma_net_text6
%property C12: cmds::resize::resize_network cmds::resize::resize_and_output lemma:lemma_super lemma:lemma_placed net::IpNetwork::fmt lemma:lemma_net_text4 lemma:lemma_net_text6
%property C13: cmds::enumerate::NetworkIter::new cmds::enumerate::NetworkIter::next cmds::enumerate::enumerate lemma:lemma_listing net::IpNetwork::fmt lemma:lemma_net_text4 lemma:lemma_net_text6
%property C10: cmds::minimize::minimize_subnets cmds::minimize::minimize lemma:lemma_merge lemma:lemma_filtered lemma:lemma_unmerged lemma:lemma_minimal net::IpNetwork::fmt lemma:lemma_net_text4 lemma:lemma_net_text6
%property C11: cmds::split::split_subnet cmds::derange::range_to_subnets cmds::split::output_split lemma:lemma_split lemma:lemma_slices lemma:lemma_whole lemma:lemma_place lemma:lemma_hof net::IpNetwork::fmt lemma:lemma_net_text4 lemma:lemma_net_text6
%property C17: main do_main usage cmds::minimize::minimize cmds::derange::derange cmds::enumerate::enumerate cmds::resize::resize cmds::resize::resize_and_output cmds::split::split cmds::split::output_split cmds::show_net::show_net cmds::parse_same_family_netspecs cmds::ParsedIpAddress::version cmds::parse_netspec cmds::parse_addr cmds::parse_subnet lemma:lemma_refused
%property C14: addr::Ipv4Address::fmt addr::Ipv4Address::from_str addr::Ipv6Address::fmt addr::Ipv6Address::from_str addr::Ipv6Address::to_full_string cmds::parse_addr lemma:lemma_shape lemma:lemma_read_gap lemma:lemma_read_full lemma:lemma_v4_text lemma:lemma_shown_done lemma:lemma_unspecified lemma:lemma_family
%property C15: cmds::parse_netspec cmds::parse_subnet net::IpNetwork::new_with_mask net::IpNetwork::new_with_prefix lemma:lemma_notations4 lemma:lemma_notations6 lemma:lemma_prefixes4 lemma:lemma_prefixes6 lemma:lemma_refused lemma:lemma_read lemma:lemma_some_pattern lemma:lemma_patterns
%property C16: cmds::show_net::output_network cmds::show_net::output_ipv4_class cmds::show_net::output_binary_ipv4_address cmds::show_net::output_binary_ipv6_address cmds::show_net::output_ipv4_network cmds::show_net::output_ipv6_network cmds::show_net::show_net console::write_in_color addr::Ipv4Address::fmt addr::Ipv6Address::fmt lemma:lemma_report lemma:lemma_starts
