// Every attribute of every committed dictionary module, with its typed functions.
#![allow(clippy::type_complexity, clippy::unnecessary_cast)]
use chrono::{DateTime, TimeZone, Utc};
use radius::core::avp::AVPError;
use radius::core::packet::Packet;
use radius::core::tag::Tag;
use radius::core::vsa::{StringVSA, TaggedStringVSA};
use radius::core::*;
use serde::{Deserialize, Serialize};
use std::net::{Ipv4Addr, Ipv6Addr};

#[derive(Clone, Debug, PartialEq, Hash, Serialize, Deserialize)]
pub enum Val {
    S(String),
    B(Vec<u8>),
    U32(u32),
    U16(u16),
    V4([u8; 4]),
    V6([u8; 16]),
    Date(i64),
    TS(Option<u8>, String),
    TU(Option<u8>, u32),
    TP(Option<u8>, Vec<u8>),
    Vsa { vendor: i32, typ: u8, tag: Option<u8>, text: String },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Str,
    Octets,
    Concat,
    Fixed(usize),
    Int,
    Short,
    V4,
    V4Prefix,
    V6,
    V6Prefix,
    Date,
    TStr,
    TInt,
    UserPw,
    TunnelPw,
    Vsa,
}

pub struct Attr {
    pub name: &'static str,
    pub typ: u8,
    pub kind: Kind,
    /// false: refused
    pub add: fn(&mut Packet, &Val) -> bool,
    /// None: absent; Some(None): present but undecodable
    pub get: fn(&Packet) -> Option<Option<Val>>,
    pub all: Option<fn(&Packet) -> Option<Vec<Val>>>,
    pub del: fn(&mut Packet),
}

/// The texts of the errors the typed functions gave, kept where two builds are compared.
pub static ERRORS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(vec![]);
fn note(e: AVPError) {
    if crate::world::compared() {
        ERRORS.lock().unwrap().push(e.to_string());
    }
}

trait ToVal {
    fn v(self) -> Val;
}
impl ToVal for String {
    fn v(self) -> Val {
        Val::S(self)
    }
}
impl ToVal for Vec<u8> {
    fn v(self) -> Val {
        Val::B(self)
    }
}
impl ToVal for u32 {
    fn v(self) -> Val {
        Val::U32(self)
    }
}
impl ToVal for u16 {
    fn v(self) -> Val {
        Val::U16(self)
    }
}
impl ToVal for Ipv4Addr {
    fn v(self) -> Val {
        Val::V4(self.octets())
    }
}
impl ToVal for Ipv6Addr {
    fn v(self) -> Val {
        Val::V6(self.octets())
    }
}
impl ToVal for DateTime<Utc> {
    fn v(self) -> Val {
        Val::Date(self.timestamp())
    }
}
impl ToVal for (String, Option<Tag>) {
    fn v(self) -> Val {
        Val::TS(self.1.map(|t| t.get_value()), self.0)
    }
}
impl ToVal for (u32, Tag) {
    fn v(self) -> Val {
        Val::TU(if self.1.is_zero() { None } else { Some(self.1.get_value()) }, self.0)
    }
}
impl ToVal for (Vec<u8>, Tag) {
    fn v(self) -> Val {
        Val::TP(if self.1.is_zero() { None } else { Some(self.1.get_value()) }, self.0)
    }
}
trait ToGet {
    fn g(self) -> Option<Val>;
}
impl<T: ToVal> ToGet for Result<T, AVPError> {
    fn g(self) -> Option<Val> {
        self.map_err(note).ok().map(|x| x.v())
    }
}
impl ToGet for Vec<u8> {
    fn g(self) -> Option<Val> {
        Some(Val::B(self))
    }
}
trait ToAll {
    fn a(self) -> Option<Vec<Val>>;
}
impl<T: ToVal> ToAll for Result<Vec<T>, AVPError> {
    fn a(self) -> Option<Vec<Val>> {
        self.map_err(note).ok().map(|x| x.into_iter().map(|y| y.v()).collect())
    }
}
impl ToAll for Vec<Vec<u8>> {
    fn a(self) -> Option<Vec<Val>> {
        Some(self.into_iter().map(Val::B).collect())
    }
}

macro_rules! add {
    (str, $m:ident, $f:ident) => { |p, v| if let Val::S(x) = v { $m::$f(p, x); true } else { false } };
    (octets, $m:ident, $f:ident) => { |p, v| if let Val::B(x) = v { $m::$f(p, x); true } else { false } };
    (concat, $m:ident, $f:ident) => { |p, v| if let Val::B(x) = v { $m::$f(p, x); true } else { false } };
    (fixed, $m:ident, $f:ident) => { |p, v| if let Val::B(x) = v { $m::$f(p, x).map_err(note).is_ok() } else { false } };
    (v4prefix, $m:ident, $f:ident) => { |p, v| if let Val::B(x) = v { $m::$f(p, x).map_err(note).is_ok() } else { false } };
    (v6prefix, $m:ident, $f:ident) => { |p, v| if let Val::B(x) = v { $m::$f(p, x).map_err(note).is_ok() } else { false } };
    (userpw, $m:ident, $f:ident) => { |p, v| if let Val::B(x) = v { $m::$f(p, x).map_err(note).is_ok() } else { false } };
    (int, $m:ident, $f:ident) => { |p, v| if let Val::U32(x) = v { $m::$f(p, *x); true } else { false } };
    (short, $m:ident, $f:ident) => { |p, v| if let Val::U16(x) = v { $m::$f(p, *x); true } else { false } };
    (v4, $m:ident, $f:ident) => { |p, v| if let Val::V4(x) = v { $m::$f(p, &Ipv4Addr::from(*x)); true } else { false } };
    (v6, $m:ident, $f:ident) => { |p, v| if let Val::V6(x) = v { $m::$f(p, &Ipv6Addr::from(*x)); true } else { false } };
    (date, $m:ident, $f:ident) => { |p, v| if let Val::Date(x) = v { $m::$f(p, &Utc.timestamp_opt(*x, 0).unwrap()); true } else { false } };
    (tstr, $m:ident, $f:ident) => { |p, v| if let Val::TS(t, x) = v { $m::$f(p, t.map(Tag::new).as_ref(), x); true } else { false } };
    (tint, $m:ident, $f:ident) => { |p, v| if let Val::TU(t, x) = v { $m::$f(p, t.map(Tag::new).as_ref(), *x); true } else { false } };
    (tunnelpw, $m:ident, $f:ident) => { |p, v| if let Val::TP(t, x) = v { $m::$f(p, t.map(Tag::new).as_ref(), x).map_err(note).is_ok() } else { false } };
}
macro_rules! kind {
    (str) => { Kind::Str }; (octets) => { Kind::Octets }; (concat) => { Kind::Concat }; (int) => { Kind::Int };
    (short) => { Kind::Short }; (v4) => { Kind::V4 }; (v4prefix) => { Kind::V4Prefix }; (v6) => { Kind::V6 };
    (v6prefix) => { Kind::V6Prefix }; (date) => { Kind::Date }; (tstr) => { Kind::TStr }; (tint) => { Kind::TInt };
    (userpw) => { Kind::UserPw }; (tunnelpw) => { Kind::TunnelPw };
    (fixed, $n:expr) => { Kind::Fixed($n) };
}
macro_rules! all {
    ($m:ident, none) => { None };
    ($m:ident, $f:ident) => { Some(|p| ToAll::a($m::$f(p))) };
}
macro_rules! a {
    ($k:ident, $m:ident, $name:expr, $typ:expr, $add:ident, $get:ident, $all:ident, $del:ident $(, $n:expr)?) => {
        Attr {
            name: $name,
            typ: $typ,
            kind: kind!($k $(, $n)?),
            add: add!($k, $m, $add),
            get: |p| $m::$get(p).map(|x| ToGet::g(x)),
            all: all!($m, $all),
            del: |p| $m::$del(p),
        }
    };
}

/// There is no typed lookup for this one: the raw octets count.
fn vsa_attr(typ: u8) -> Attr {
    Attr {
        name: "Vendor-Specific",
        typ,
        kind: Kind::Vsa,
        add: |p, v| {
            if let Val::Vsa { vendor, typ, tag, text } = v {
                match tag {
                    None => rfc2865::add_vsa_attribute(p, &StringVSA::new(*vendor, *typ, text)),
                    Some(t) => rfc2865::add_vsa_attribute(p, &TaggedStringVSA::new(*vendor, *typ, *t, text)),
                }
                true
            } else {
                false
            }
        },
        get: |p| p.lookup(rfc2865::VENDOR_SPECIFIC_TYPE).map(|a| Some(Val::B(a.encode_bytes()))),
        all: Some(|p| Some(p.lookup_all(rfc2865::VENDOR_SPECIFIC_TYPE).iter().map(|a| Val::B(a.encode_bytes())).collect())),
        del: |p| rfc2865::delete_vendor_specific(p),
    }
}

pub fn table() -> Vec<Attr> {
    vec![
        a!(str, rfc2865, "User-Name", 1, add_user_name, lookup_user_name, lookup_all_user_name, delete_user_name),
        a!(userpw, rfc2865, "User-Password", 2, add_user_password, lookup_user_password, lookup_all_user_password, delete_user_password),
        a!(octets, rfc2865, "CHAP-Password", 3, add_chap_password, lookup_chap_password, lookup_all_chap_password, delete_chap_password),
        a!(v4, rfc2865, "NAS-IP-Address", 4, add_nas_ip_address, lookup_nas_ip_address, lookup_all_nas_ip_address, delete_nas_ip_address),
        a!(int, rfc2865, "NAS-Port", 5, add_nas_port, lookup_nas_port, lookup_all_nas_port, delete_nas_port),
        a!(int, rfc2865, "Service-Type", 6, add_service_type, lookup_service_type, lookup_all_service_type, delete_service_type),
        a!(int, rfc2865, "Framed-Protocol", 7, add_framed_protocol, lookup_framed_protocol, lookup_all_framed_protocol, delete_framed_protocol),
        a!(v4, rfc2865, "Framed-IP-Address", 8, add_framed_ip_address, lookup_framed_ip_address, lookup_all_framed_ip_address, delete_framed_ip_address),
        a!(v4, rfc2865, "Framed-IP-Netmask", 9, add_framed_ip_netmask, lookup_framed_ip_netmask, lookup_all_framed_ip_netmask, delete_framed_ip_netmask),
        a!(int, rfc2865, "Framed-Routing", 10, add_framed_routing, lookup_framed_routing, lookup_all_framed_routing, delete_framed_routing),
        a!(str, rfc2865, "Filter-Id", 11, add_filter_id, lookup_filter_id, lookup_all_filter_id, delete_filter_id),
        a!(int, rfc2865, "Framed-MTU", 12, add_framed_mtu, lookup_framed_mtu, lookup_all_framed_mtu, delete_framed_mtu),
        a!(int, rfc2865, "Framed-Compression", 13, add_framed_compression, lookup_framed_compression, lookup_all_framed_compression, delete_framed_compression),
        a!(v4, rfc2865, "Login-IP-Host", 14, add_login_ip_host, lookup_login_ip_host, lookup_all_login_ip_host, delete_login_ip_host),
        a!(int, rfc2865, "Login-Service", 15, add_login_service, lookup_login_service, lookup_all_login_service, delete_login_service),
        a!(int, rfc2865, "Login-TCP-Port", 16, add_login_tcp_port, lookup_login_tcp_port, lookup_all_login_tcp_port, delete_login_tcp_port),
        a!(str, rfc2865, "Reply-Message", 18, add_reply_message, lookup_reply_message, lookup_all_reply_message, delete_reply_message),
        a!(str, rfc2865, "Callback-Number", 19, add_callback_number, lookup_callback_number, lookup_all_callback_number, delete_callback_number),
        a!(str, rfc2865, "Callback-Id", 20, add_callback_id, lookup_callback_id, lookup_all_callback_id, delete_callback_id),
        a!(str, rfc2865, "Framed-Route", 22, add_framed_route, lookup_framed_route, lookup_all_framed_route, delete_framed_route),
        a!(v4, rfc2865, "Framed-IPX-Network", 23, add_framed_ipx_network, lookup_framed_ipx_network, lookup_all_framed_ipx_network, delete_framed_ipx_network),
        a!(octets, rfc2865, "State", 24, add_state, lookup_state, lookup_all_state, delete_state),
        a!(octets, rfc2865, "Class", 25, add_class, lookup_class, lookup_all_class, delete_class),
        vsa_attr(26),
        a!(int, rfc2865, "Session-Timeout", 27, add_session_timeout, lookup_session_timeout, lookup_all_session_timeout, delete_session_timeout),
        a!(int, rfc2865, "Idle-Timeout", 28, add_idle_timeout, lookup_idle_timeout, lookup_all_idle_timeout, delete_idle_timeout),
        a!(int, rfc2865, "Termination-Action", 29, add_termination_action, lookup_termination_action, lookup_all_termination_action, delete_termination_action),
        a!(str, rfc2865, "Called-Station-Id", 30, add_called_station_id, lookup_called_station_id, lookup_all_called_station_id, delete_called_station_id),
        a!(str, rfc2865, "Calling-Station-Id", 31, add_calling_station_id, lookup_calling_station_id, lookup_all_calling_station_id, delete_calling_station_id),
        a!(str, rfc2865, "NAS-Identifier", 32, add_nas_identifier, lookup_nas_identifier, lookup_all_nas_identifier, delete_nas_identifier),
        a!(octets, rfc2865, "Proxy-State", 33, add_proxy_state, lookup_proxy_state, lookup_all_proxy_state, delete_proxy_state),
        a!(str, rfc2865, "Login-LAT-Service", 34, add_login_lat_service, lookup_login_lat_service, lookup_all_login_lat_service, delete_login_lat_service),
        a!(str, rfc2865, "Login-LAT-Node", 35, add_login_lat_node, lookup_login_lat_node, lookup_all_login_lat_node, delete_login_lat_node),
        a!(octets, rfc2865, "Login-LAT-Group", 36, add_login_lat_group, lookup_login_lat_group, lookup_all_login_lat_group, delete_login_lat_group),
        a!(int, rfc2865, "Framed-AppleTalk-Link", 37, add_framed_apple_talk_link, lookup_framed_apple_talk_link, lookup_all_framed_apple_talk_link, delete_framed_apple_talk_link),
        a!(int, rfc2865, "Framed-AppleTalk-Network", 38, add_framed_apple_talk_network, lookup_framed_apple_talk_network, lookup_all_framed_apple_talk_network, delete_framed_apple_talk_network),
        a!(str, rfc2865, "Framed-AppleTalk-Zone", 39, add_framed_apple_talk_zone, lookup_framed_apple_talk_zone, lookup_all_framed_apple_talk_zone, delete_framed_apple_talk_zone),
        a!(octets, rfc2865, "CHAP-Challenge", 60, add_chap_challenge, lookup_chap_challenge, lookup_all_chap_challenge, delete_chap_challenge),
        a!(int, rfc2865, "NAS-Port-Type", 61, add_nas_port_type, lookup_nas_port_type, lookup_all_nas_port_type, delete_nas_port_type),
        a!(int, rfc2865, "Port-Limit", 62, add_port_limit, lookup_port_limit, lookup_all_port_limit, delete_port_limit),
        a!(str, rfc2865, "Login-LAT-Port", 63, add_login_lat_port, lookup_login_lat_port, lookup_all_login_lat_port, delete_login_lat_port),
        a!(int, rfc2866, "Acct-Status-Type", 40, add_acct_status_type, lookup_acct_status_type, lookup_all_acct_status_type, delete_acct_status_type),
        a!(int, rfc2866, "Acct-Delay-Time", 41, add_acct_delay_time, lookup_acct_delay_time, lookup_all_acct_delay_time, delete_acct_delay_time),
        a!(int, rfc2866, "Acct-Input-Octets", 42, add_acct_input_octets, lookup_acct_input_octets, lookup_all_acct_input_octets, delete_acct_input_octets),
        a!(int, rfc2866, "Acct-Output-Octets", 43, add_acct_output_octets, lookup_acct_output_octets, lookup_all_acct_output_octets, delete_acct_output_octets),
        a!(str, rfc2866, "Acct-Session-Id", 44, add_acct_session_id, lookup_acct_session_id, lookup_all_acct_session_id, delete_acct_session_id),
        a!(int, rfc2866, "Acct-Authentic", 45, add_acct_authentic, lookup_acct_authentic, lookup_all_acct_authentic, delete_acct_authentic),
        a!(int, rfc2866, "Acct-Session-Time", 46, add_acct_session_time, lookup_acct_session_time, lookup_all_acct_session_time, delete_acct_session_time),
        a!(int, rfc2866, "Acct-Input-Packets", 47, add_acct_input_packets, lookup_acct_input_packets, lookup_all_acct_input_packets, delete_acct_input_packets),
        a!(int, rfc2866, "Acct-Output-Packets", 48, add_acct_output_packets, lookup_acct_output_packets, lookup_all_acct_output_packets, delete_acct_output_packets),
        a!(int, rfc2866, "Acct-Terminate-Cause", 49, add_acct_terminate_cause, lookup_acct_terminate_cause, lookup_all_acct_terminate_cause, delete_acct_terminate_cause),
        a!(str, rfc2866, "Acct-Multi-Session-Id", 50, add_acct_multi_session_id, lookup_acct_multi_session_id, lookup_all_acct_multi_session_id, delete_acct_multi_session_id),
        a!(int, rfc2866, "Acct-Link-Count", 51, add_acct_link_count, lookup_acct_link_count, lookup_all_acct_link_count, delete_acct_link_count),
        a!(str, rfc2867, "Acct-Tunnel-Connection", 68, add_acct_tunnel_connection, lookup_acct_tunnel_connection, lookup_all_acct_tunnel_connection, delete_acct_tunnel_connection),
        a!(int, rfc2867, "Acct-Tunnel-Packets-Lost", 86, add_acct_tunnel_packets_lost, lookup_acct_tunnel_packets_lost, lookup_all_acct_tunnel_packets_lost, delete_acct_tunnel_packets_lost),
        a!(tint, rfc2868, "Tunnel-Type", 64, add_tunnel_type, lookup_tunnel_type, lookup_all_tunnel_type, delete_tunnel_type),
        a!(tint, rfc2868, "Tunnel-Medium-Type", 65, add_tunnel_medium_type, lookup_tunnel_medium_type, lookup_all_tunnel_medium_type, delete_tunnel_medium_type),
        a!(tstr, rfc2868, "Tunnel-Client-Endpoint", 66, add_tunnel_client_endpoint, lookup_tunnel_client_endpoint, lookup_all_tunnel_client_endpoint, delete_tunnel_client_endpoint),
        a!(tstr, rfc2868, "Tunnel-Server-Endpoint", 67, add_tunnel_server_endpoint, lookup_tunnel_server_endpoint, lookup_all_tunnel_server_endpoint, delete_tunnel_server_endpoint),
        a!(tunnelpw, rfc2868, "Tunnel-Password", 69, add_tunnel_password, lookup_tunnel_password, lookup_all_tunnel_password, delete_tunnel_password),
        a!(tstr, rfc2868, "Tunnel-Private-Group-Id", 81, add_tunnel_private_group_id, lookup_tunnel_private_group_id, lookup_all_tunnel_private_group_id, delete_tunnel_private_group_id),
        a!(tstr, rfc2868, "Tunnel-Assignment-Id", 82, add_tunnel_assignment_id, lookup_tunnel_assignment_id, lookup_all_tunnel_assignment_id, delete_tunnel_assignment_id),
        a!(tint, rfc2868, "Tunnel-Preference", 83, add_tunnel_preference, lookup_tunnel_preference, lookup_all_tunnel_preference, delete_tunnel_preference),
        a!(tstr, rfc2868, "Tunnel-Client-Auth-Id", 90, add_tunnel_client_auth_id, lookup_tunnel_client_auth_id, lookup_all_tunnel_client_auth_id, delete_tunnel_client_auth_id),
        a!(tstr, rfc2868, "Tunnel-Server-Auth-Id", 91, add_tunnel_server_auth_id, lookup_tunnel_server_auth_id, lookup_all_tunnel_server_auth_id, delete_tunnel_server_auth_id),
        a!(int, rfc2869, "Acct-Input-Gigawords", 52, add_acct_input_gigawords, lookup_acct_input_gigawords, lookup_all_acct_input_gigawords, delete_acct_input_gigawords),
        a!(int, rfc2869, "Acct-Output-Gigawords", 53, add_acct_output_gigawords, lookup_acct_output_gigawords, lookup_all_acct_output_gigawords, delete_acct_output_gigawords),
        a!(date, rfc2869, "Event-Timestamp", 55, add_event_timestamp, lookup_event_timestamp, lookup_all_event_timestamp, delete_event_timestamp),
        a!(fixed, rfc2869, "ARAP-Password", 70, add_arap_password, lookup_arap_password, lookup_all_arap_password, delete_arap_password, 16),
        a!(fixed, rfc2869, "ARAP-Features", 71, add_arap_features, lookup_arap_features, lookup_all_arap_features, delete_arap_features, 14),
        a!(int, rfc2869, "ARAP-Zone-Access", 72, add_arap_zone_access, lookup_arap_zone_access, lookup_all_arap_zone_access, delete_arap_zone_access),
        a!(int, rfc2869, "ARAP-Security", 73, add_arap_security, lookup_arap_security, lookup_all_arap_security, delete_arap_security),
        a!(str, rfc2869, "ARAP-Security-Data", 74, add_arap_security_data, lookup_arap_security_data, lookup_all_arap_security_data, delete_arap_security_data),
        a!(int, rfc2869, "Password-Retry", 75, add_password_retry, lookup_password_retry, lookup_all_password_retry, delete_password_retry),
        a!(int, rfc2869, "Prompt", 76, add_prompt, lookup_prompt, lookup_all_prompt, delete_prompt),
        a!(str, rfc2869, "Connect-Info", 77, add_connect_info, lookup_connect_info, lookup_all_connect_info, delete_connect_info),
        a!(str, rfc2869, "Configuration-Token", 78, add_configuration_token, lookup_configuration_token, lookup_all_configuration_token, delete_configuration_token),
        a!(concat, rfc2869, "EAP-Message", 79, add_eap_message, lookup_eap_message, none, delete_eap_message),
        a!(octets, rfc2869, "Message-Authenticator", 80, add_message_authenticator, lookup_message_authenticator, lookup_all_message_authenticator, delete_message_authenticator),
        a!(fixed, rfc2869, "ARAP-Challenge-Response", 84, add_arap_challenge_response, lookup_arap_challenge_response, lookup_all_arap_challenge_response, delete_arap_challenge_response, 8),
        a!(int, rfc2869, "Acct-Interim-Interval", 85, add_acct_interim_interval, lookup_acct_interim_interval, lookup_all_acct_interim_interval, delete_acct_interim_interval),
        a!(str, rfc2869, "NAS-Port-Id", 87, add_nas_port_id, lookup_nas_port_id, lookup_all_nas_port_id, delete_nas_port_id),
        a!(str, rfc2869, "Framed-Pool", 88, add_framed_pool, lookup_framed_pool, lookup_all_framed_pool, delete_framed_pool),
        a!(v6, rfc3162, "NAS-IPV6-Address", 95, add_nas_ipv6_address, lookup_nas_ipv6_address, lookup_all_nas_ipv6_address, delete_nas_ipv6_address),
        a!(fixed, rfc3162, "Framed-Interface-Id", 96, add_framed_interface_id, lookup_framed_interface_id, lookup_all_framed_interface_id, delete_framed_interface_id, 8),
        a!(v6prefix, rfc3162, "Framed-IPV6-Prefix", 97, add_framed_ipv6_prefix, lookup_framed_ipv6_prefix, lookup_all_framed_ipv6_prefix, delete_framed_ipv6_prefix),
        a!(v6, rfc3162, "Login-IPV6-Host", 98, add_login_ipv6_host, lookup_login_ipv6_host, lookup_all_login_ipv6_host, delete_login_ipv6_host),
        a!(str, rfc3162, "Framed-IPV6-Route", 99, add_framed_ipv6_route, lookup_framed_ipv6_route, lookup_all_framed_ipv6_route, delete_framed_ipv6_route),
        a!(str, rfc3162, "Framed-IPV6-Pool", 100, add_framed_ipv6_pool, lookup_framed_ipv6_pool, lookup_all_framed_ipv6_pool, delete_framed_ipv6_pool),
        a!(int, rfc3576, "Error-Cause", 101, add_error_cause, lookup_error_cause, lookup_all_error_cause, delete_error_cause),
        a!(octets, rfc4072, "EAP-Key-Name", 102, add_eap_key_name, lookup_eap_key_name, lookup_all_eap_key_name, delete_eap_key_name),
        a!(octets, rfc4372, "Chargeable-User-Identity", 89, add_chargeable_user_identity, lookup_chargeable_user_identity, lookup_all_chargeable_user_identity, delete_chargeable_user_identity),
        a!(int, rfc4675, "Egress-VLANID", 56, add_egress_vlanid, lookup_egress_vlanid, lookup_all_egress_vlanid, delete_egress_vlanid),
        a!(int, rfc4675, "Ingress-Filters", 57, add_ingress_filters, lookup_ingress_filters, lookup_all_ingress_filters, delete_ingress_filters),
        a!(str, rfc4675, "Egress-VLAN-Name", 58, add_egress_vlan_name, lookup_egress_vlan_name, lookup_all_egress_vlan_name, delete_egress_vlan_name),
        a!(octets, rfc4675, "User-Priority-Table", 59, add_user_priority_table, lookup_user_priority_table, lookup_all_user_priority_table, delete_user_priority_table),
        a!(v6prefix, rfc4818, "Delegated-IPV6-Prefix", 123, add_delegated_ipv6_prefix, lookup_delegated_ipv6_prefix, lookup_all_delegated_ipv6_prefix, delete_delegated_ipv6_prefix),
        a!(str, rfc4849, "NAS-Filter-Rule", 92, add_nas_filter_rule, lookup_nas_filter_rule, lookup_all_nas_filter_rule, delete_nas_filter_rule),
        a!(str, rfc5090, "Digest-Response", 103, add_digest_response, lookup_digest_response, lookup_all_digest_response, delete_digest_response),
        a!(str, rfc5090, "Digest-Realm", 104, add_digest_realm, lookup_digest_realm, lookup_all_digest_realm, delete_digest_realm),
        a!(str, rfc5090, "Digest-Nonce", 105, add_digest_nonce, lookup_digest_nonce, lookup_all_digest_nonce, delete_digest_nonce),
        a!(str, rfc5090, "Digest-Response-Auth", 106, add_digest_response_auth, lookup_digest_response_auth, lookup_all_digest_response_auth, delete_digest_response_auth),
        a!(str, rfc5090, "Digest-Nextnonce", 107, add_digest_nextnonce, lookup_digest_nextnonce, lookup_all_digest_nextnonce, delete_digest_nextnonce),
        a!(str, rfc5090, "Digest-Method", 108, add_digest_method, lookup_digest_method, lookup_all_digest_method, delete_digest_method),
        a!(str, rfc5090, "Digest-URI", 109, add_digest_uri, lookup_digest_uri, lookup_all_digest_uri, delete_digest_uri),
        a!(str, rfc5090, "Digest-Qop", 110, add_digest_qop, lookup_digest_qop, lookup_all_digest_qop, delete_digest_qop),
        a!(str, rfc5090, "Digest-Algorithm", 111, add_digest_algorithm, lookup_digest_algorithm, lookup_all_digest_algorithm, delete_digest_algorithm),
        a!(str, rfc5090, "Digest-Entity-Body-Hash", 112, add_digest_entity_body_hash, lookup_digest_entity_body_hash, lookup_all_digest_entity_body_hash, delete_digest_entity_body_hash),
        a!(str, rfc5090, "Digest-CNonce", 113, add_digest_c_nonce, lookup_digest_c_nonce, lookup_all_digest_c_nonce, delete_digest_c_nonce),
        a!(str, rfc5090, "Digest-Nonce-Count", 114, add_digest_nonce_count, lookup_digest_nonce_count, lookup_all_digest_nonce_count, delete_digest_nonce_count),
        a!(str, rfc5090, "Digest-Username", 115, add_digest_username, lookup_digest_username, lookup_all_digest_username, delete_digest_username),
        a!(str, rfc5090, "Digest-Opaque", 116, add_digest_opaque, lookup_digest_opaque, lookup_all_digest_opaque, delete_digest_opaque),
        a!(str, rfc5090, "Digest-Auth-Param", 117, add_digest_auth_param, lookup_digest_auth_param, lookup_all_digest_auth_param, delete_digest_auth_param),
        a!(str, rfc5090, "Digest-AKA-Auts", 118, add_digest_aka_auts, lookup_digest_aka_auts, lookup_all_digest_aka_auts, delete_digest_aka_auts),
        a!(str, rfc5090, "Digest-Domain", 119, add_digest_domain, lookup_digest_domain, lookup_all_digest_domain, delete_digest_domain),
        a!(str, rfc5090, "Digest-Stale", 120, add_digest_stale, lookup_digest_stale, lookup_all_digest_stale, delete_digest_stale),
        a!(str, rfc5090, "Digest-HA1", 121, add_digest_ha1, lookup_digest_ha1, lookup_all_digest_ha1, delete_digest_ha1),
        a!(str, rfc5090, "SIP-AOR", 122, add_sip_aor, lookup_sip_aor, lookup_all_sip_aor, delete_sip_aor),
        a!(int, rfc5607, "Framed-Management", 133, add_framed_management, lookup_framed_management, lookup_all_framed_management, delete_framed_management),
        a!(int, rfc5607, "Management-Transport-Protection", 134, add_management_transport_protection, lookup_management_transport_protection, lookup_all_management_transport_protection, delete_management_transport_protection),
        a!(str, rfc5607, "Management-Policy-Id", 135, add_management_policy_id, lookup_management_policy_id, lookup_all_management_policy_id, delete_management_policy_id),
        a!(int, rfc5607, "Management-Privilege-Level", 136, add_management_privilege_level, lookup_management_privilege_level, lookup_all_management_privilege_level, delete_management_privilege_level),
        a!(concat, rfc5904, "PKM-SS-Cert", 137, add_pkm_ss_cert, lookup_pkm_ss_cert, none, delete_pkm_ss_cert),
        a!(concat, rfc5904, "PKM-CA-Cert", 138, add_pkm_ca_cert, lookup_pkm_ca_cert, none, delete_pkm_ca_cert),
        a!(octets, rfc5904, "PKM-Config-Settings", 139, add_pkm_config_settings, lookup_pkm_config_settings, lookup_all_pkm_config_settings, delete_pkm_config_settings),
        a!(octets, rfc5904, "PKM-Cryptosuite-List", 140, add_pkm_cryptosuite_list, lookup_pkm_cryptosuite_list, lookup_all_pkm_cryptosuite_list, delete_pkm_cryptosuite_list),
        a!(short, rfc5904, "PKM-SAID", 141, add_pkm_said, lookup_pkm_said, lookup_all_pkm_said, delete_pkm_said),
        a!(octets, rfc5904, "PKM-SA-Descriptor", 142, add_pkm_sa_descriptor, lookup_pkm_sa_descriptor, lookup_all_pkm_sa_descriptor, delete_pkm_sa_descriptor),
        a!(octets, rfc5904, "PKM-Auth-Key", 143, add_pkm_auth_key, lookup_pkm_auth_key, lookup_all_pkm_auth_key, delete_pkm_auth_key),
        a!(str, rfc6519, "DS-Lite-Tunnel-Name", 144, add_ds_lite_tunnel_name, lookup_ds_lite_tunnel_name, lookup_all_ds_lite_tunnel_name, delete_ds_lite_tunnel_name),
        a!(octets, rfc6572, "Mobile-Node-Identifier", 145, add_mobile_node_identifier, lookup_mobile_node_identifier, lookup_all_mobile_node_identifier, delete_mobile_node_identifier),
        a!(str, rfc6572, "Service-Selection", 146, add_service_selection, lookup_service_selection, lookup_all_service_selection, delete_service_selection),
        a!(v6, rfc6572, "PMIP6-Home-LMA-IPV6-Address", 147, add_pmip6_home_lma_ipv6_address, lookup_pmip6_home_lma_ipv6_address, lookup_all_pmip6_home_lma_ipv6_address, delete_pmip6_home_lma_ipv6_address),
        a!(v6, rfc6572, "PMIP6-Visited-LMA-IPV6-Address", 148, add_pmip6_visited_lma_ipv6_address, lookup_pmip6_visited_lma_ipv6_address, lookup_all_pmip6_visited_lma_ipv6_address, delete_pmip6_visited_lma_ipv6_address),
        a!(v4, rfc6572, "PMIP6-Home-LMA-IPV4-Address", 149, add_pmip6_home_lma_ipv4_address, lookup_pmip6_home_lma_ipv4_address, lookup_all_pmip6_home_lma_ipv4_address, delete_pmip6_home_lma_ipv4_address),
        a!(v4, rfc6572, "PMIP6-Visited-LMA-IPV4-Address", 150, add_pmip6_visited_lma_ipv4_address, lookup_pmip6_visited_lma_ipv4_address, lookup_all_pmip6_visited_lma_ipv4_address, delete_pmip6_visited_lma_ipv4_address),
        a!(v6prefix, rfc6572, "PMIP6-Home-HN-Prefix", 151, add_pmip6_home_hn_prefix, lookup_pmip6_home_hn_prefix, lookup_all_pmip6_home_hn_prefix, delete_pmip6_home_hn_prefix),
        a!(v6prefix, rfc6572, "PMIP6-Visited-HN-Prefix", 152, add_pmip6_visited_hn_prefix, lookup_pmip6_visited_hn_prefix, lookup_all_pmip6_visited_hn_prefix, delete_pmip6_visited_hn_prefix),
        a!(fixed, rfc6572, "PMIP6-Home-Interface-ID", 153, add_pmip6_home_interface_id, lookup_pmip6_home_interface_id, lookup_all_pmip6_home_interface_id, delete_pmip6_home_interface_id, 8),
        a!(fixed, rfc6572, "PMIP6-Visited-Interface-ID", 154, add_pmip6_visited_interface_id, lookup_pmip6_visited_interface_id, lookup_all_pmip6_visited_interface_id, delete_pmip6_visited_interface_id, 8),
        a!(v4prefix, rfc6572, "PMIP6-Home-IPV4-HoA", 155, add_pmip6_home_ipv4_ho_a, lookup_pmip6_home_ipv4_ho_a, lookup_all_pmip6_home_ipv4_ho_a, delete_pmip6_home_ipv4_ho_a),
        a!(v4prefix, rfc6572, "PMIP6-Visited-IPV4-HoA", 156, add_pmip6_visited_ipv4_ho_a, lookup_pmip6_visited_ipv4_ho_a, lookup_all_pmip6_visited_ipv4_ho_a, delete_pmip6_visited_ipv4_ho_a),
        a!(v4, rfc6572, "PMIP6-Home-DHCP4-Server-Address", 157, add_pmip6_home_dhcp4_server_address, lookup_pmip6_home_dhcp4_server_address, lookup_all_pmip6_home_dhcp4_server_address, delete_pmip6_home_dhcp4_server_address),
        a!(v4, rfc6572, "PMIP6-Visited-DHCP4-Server-Address", 158, add_pmip6_visited_dhcp4_server_address, lookup_pmip6_visited_dhcp4_server_address, lookup_all_pmip6_visited_dhcp4_server_address, delete_pmip6_visited_dhcp4_server_address),
        a!(v6, rfc6572, "PMIP6-Home-DHCP6-Server-Address", 159, add_pmip6_home_dhcp6_server_address, lookup_pmip6_home_dhcp6_server_address, lookup_all_pmip6_home_dhcp6_server_address, delete_pmip6_home_dhcp6_server_address),
        a!(v6, rfc6572, "PMIP6-Visited-DHCP6-Server-Address", 160, add_pmip6_visited_dhcp6_server_address, lookup_pmip6_visited_dhcp6_server_address, lookup_all_pmip6_visited_dhcp6_server_address, delete_pmip6_visited_dhcp6_server_address),
        a!(v4, rfc6572, "PMIP6-Home-IPV4-Gateway", 161, add_pmip6_home_ipv4_gateway, lookup_pmip6_home_ipv4_gateway, lookup_all_pmip6_home_ipv4_gateway, delete_pmip6_home_ipv4_gateway),
        a!(v4, rfc6572, "PMIP6-Visited-IPV4-Gateway", 162, add_pmip6_visited_ipv4_gateway, lookup_pmip6_visited_ipv4_gateway, lookup_all_pmip6_visited_ipv4_gateway, delete_pmip6_visited_ipv4_gateway),
        a!(int, rfc6677, "EAP-Lower-Layer", 163, add_eap_lower_layer, lookup_eap_lower_layer, lookup_all_eap_lower_layer, delete_eap_lower_layer),
        a!(v6, rfc6911, "Framed-IPV6-Address", 168, add_framed_ipv6_address, lookup_framed_ipv6_address, lookup_all_framed_ipv6_address, delete_framed_ipv6_address),
        a!(v6, rfc6911, "DNS-Server-IPV6-Address", 169, add_dns_server_ipv6_address, lookup_dns_server_ipv6_address, lookup_all_dns_server_ipv6_address, delete_dns_server_ipv6_address),
        a!(v6prefix, rfc6911, "Route-IPV6-Information", 170, add_route_ipv6_information, lookup_route_ipv6_information, lookup_all_route_ipv6_information, delete_route_ipv6_information),
        a!(str, rfc6911, "Delegated-IPV6-Prefix-Pool", 171, add_delegated_ipv6_prefix_pool, lookup_delegated_ipv6_prefix_pool, lookup_all_delegated_ipv6_prefix_pool, delete_delegated_ipv6_prefix_pool),
        a!(str, rfc6911, "Stateful-IPV6-Address-Pool", 172, add_stateful_ipv6_address_pool, lookup_stateful_ipv6_address_pool, lookup_all_stateful_ipv6_address_pool, delete_stateful_ipv6_address_pool),
        a!(str, rfc7055, "GSS-Acceptor-Service-Name", 164, add_gss_acceptor_service_name, lookup_gss_acceptor_service_name, lookup_all_gss_acceptor_service_name, delete_gss_acceptor_service_name),
        a!(str, rfc7055, "GSS-Acceptor-Host-Name", 165, add_gss_acceptor_host_name, lookup_gss_acceptor_host_name, lookup_all_gss_acceptor_host_name, delete_gss_acceptor_host_name),
        a!(str, rfc7055, "GSS-Acceptor-Service-Specifics", 166, add_gss_acceptor_service_specifics, lookup_gss_acceptor_service_specifics, lookup_all_gss_acceptor_service_specifics, delete_gss_acceptor_service_specifics),
        a!(str, rfc7055, "GSS-Acceptor-Realm-Name", 167, add_gss_acceptor_realm_name, lookup_gss_acceptor_realm_name, lookup_all_gss_acceptor_realm_name, delete_gss_acceptor_realm_name),
        a!(fixed, rfc7155, "Originating-Line-Info", 94, add_originating_line_info, lookup_originating_line_info, lookup_all_originating_line_info, delete_originating_line_info, 2),
    ]
}

/// (attribute type, constant, number the dictionary assigns, name)
pub fn values() -> Vec<(u8, u32, u32, &'static str)> {
    vec![
        (6, rfc2865::SERVICE_TYPE_LOGIN_USER as u32, 1, "rfc2865::SERVICE_TYPE_LOGIN_USER"),
        (6, rfc2865::SERVICE_TYPE_FRAMED_USER as u32, 2, "rfc2865::SERVICE_TYPE_FRAMED_USER"),
        (6, rfc2865::SERVICE_TYPE_CALLBACK_LOGIN_USER as u32, 3, "rfc2865::SERVICE_TYPE_CALLBACK_LOGIN_USER"),
        (6, rfc2865::SERVICE_TYPE_CALLBACK_FRAMED_USER as u32, 4, "rfc2865::SERVICE_TYPE_CALLBACK_FRAMED_USER"),
        (6, rfc2865::SERVICE_TYPE_OUTBOUND_USER as u32, 5, "rfc2865::SERVICE_TYPE_OUTBOUND_USER"),
        (6, rfc2865::SERVICE_TYPE_ADMINISTRATIVE_USER as u32, 6, "rfc2865::SERVICE_TYPE_ADMINISTRATIVE_USER"),
        (6, rfc2865::SERVICE_TYPE_NAS_PROMPT_USER as u32, 7, "rfc2865::SERVICE_TYPE_NAS_PROMPT_USER"),
        (6, rfc2865::SERVICE_TYPE_AUTHENTICATE_ONLY as u32, 8, "rfc2865::SERVICE_TYPE_AUTHENTICATE_ONLY"),
        (6, rfc2865::SERVICE_TYPE_CALLBACK_NAS_PROMPT as u32, 9, "rfc2865::SERVICE_TYPE_CALLBACK_NAS_PROMPT"),
        (6, rfc2865::SERVICE_TYPE_CALL_CHECK as u32, 10, "rfc2865::SERVICE_TYPE_CALL_CHECK"),
        (6, rfc2865::SERVICE_TYPE_CALLBACK_ADMINISTRATIVE as u32, 11, "rfc2865::SERVICE_TYPE_CALLBACK_ADMINISTRATIVE"),
        (7, rfc2865::FRAMED_PROTOCOL_PPP as u32, 1, "rfc2865::FRAMED_PROTOCOL_PPP"),
        (7, rfc2865::FRAMED_PROTOCOL_SLIP as u32, 2, "rfc2865::FRAMED_PROTOCOL_SLIP"),
        (7, rfc2865::FRAMED_PROTOCOL_ARAP as u32, 3, "rfc2865::FRAMED_PROTOCOL_ARAP"),
        (7, rfc2865::FRAMED_PROTOCOL_GANDALF_SLML as u32, 4, "rfc2865::FRAMED_PROTOCOL_GANDALF_SLML"),
        (7, rfc2865::FRAMED_PROTOCOL_XYLOGICS_IPX_SLIP as u32, 5, "rfc2865::FRAMED_PROTOCOL_XYLOGICS_IPX_SLIP"),
        (7, rfc2865::FRAMED_PROTOCOL_X_75_SYNCHRONOUS as u32, 6, "rfc2865::FRAMED_PROTOCOL_X_75_SYNCHRONOUS"),
        (10, rfc2865::FRAMED_ROUTING_NONE as u32, 0, "rfc2865::FRAMED_ROUTING_NONE"),
        (10, rfc2865::FRAMED_ROUTING_BROADCAST as u32, 1, "rfc2865::FRAMED_ROUTING_BROADCAST"),
        (10, rfc2865::FRAMED_ROUTING_LISTEN as u32, 2, "rfc2865::FRAMED_ROUTING_LISTEN"),
        (10, rfc2865::FRAMED_ROUTING_BROADCAST_LISTEN as u32, 3, "rfc2865::FRAMED_ROUTING_BROADCAST_LISTEN"),
        (13, rfc2865::FRAMED_COMPRESSION_NONE as u32, 0, "rfc2865::FRAMED_COMPRESSION_NONE"),
        (13, rfc2865::FRAMED_COMPRESSION_VAN_JACOBSON_TCP_IP as u32, 1, "rfc2865::FRAMED_COMPRESSION_VAN_JACOBSON_TCP_IP"),
        (13, rfc2865::FRAMED_COMPRESSION_IPX_HEADER_COMPRESSION as u32, 2, "rfc2865::FRAMED_COMPRESSION_IPX_HEADER_COMPRESSION"),
        (13, rfc2865::FRAMED_COMPRESSION_STAC_LZS as u32, 3, "rfc2865::FRAMED_COMPRESSION_STAC_LZS"),
        (15, rfc2865::LOGIN_SERVICE_TELNET as u32, 0, "rfc2865::LOGIN_SERVICE_TELNET"),
        (15, rfc2865::LOGIN_SERVICE_RLOGIN as u32, 1, "rfc2865::LOGIN_SERVICE_RLOGIN"),
        (15, rfc2865::LOGIN_SERVICE_TCP_CLEAR as u32, 2, "rfc2865::LOGIN_SERVICE_TCP_CLEAR"),
        (15, rfc2865::LOGIN_SERVICE_PORT_MASTER as u32, 3, "rfc2865::LOGIN_SERVICE_PORT_MASTER"),
        (15, rfc2865::LOGIN_SERVICE_LAT as u32, 4, "rfc2865::LOGIN_SERVICE_LAT"),
        (15, rfc2865::LOGIN_SERVICE_X25_PAD as u32, 5, "rfc2865::LOGIN_SERVICE_X25_PAD"),
        (15, rfc2865::LOGIN_SERVICE_X25_T3POS as u32, 6, "rfc2865::LOGIN_SERVICE_X25_T3POS"),
        (15, rfc2865::LOGIN_SERVICE_TCP_CLEAR_QUIET as u32, 8, "rfc2865::LOGIN_SERVICE_TCP_CLEAR_QUIET"),
        (16, rfc2865::LOGIN_TCP_PORT_TELNET as u32, 23, "rfc2865::LOGIN_TCP_PORT_TELNET"),
        (16, rfc2865::LOGIN_TCP_PORT_RLOGIN as u32, 513, "rfc2865::LOGIN_TCP_PORT_RLOGIN"),
        (16, rfc2865::LOGIN_TCP_PORT_RSH as u32, 514, "rfc2865::LOGIN_TCP_PORT_RSH"),
        (29, rfc2865::TERMINATION_ACTION_DEFAULT as u32, 0, "rfc2865::TERMINATION_ACTION_DEFAULT"),
        (29, rfc2865::TERMINATION_ACTION_RADIUS_REQUEST as u32, 1, "rfc2865::TERMINATION_ACTION_RADIUS_REQUEST"),
        (61, rfc2865::NAS_PORT_TYPE_ASYNC as u32, 0, "rfc2865::NAS_PORT_TYPE_ASYNC"),
        (61, rfc2865::NAS_PORT_TYPE_SYNC as u32, 1, "rfc2865::NAS_PORT_TYPE_SYNC"),
        (61, rfc2865::NAS_PORT_TYPE_ISDN as u32, 2, "rfc2865::NAS_PORT_TYPE_ISDN"),
        (61, rfc2865::NAS_PORT_TYPE_ISDN_V120 as u32, 3, "rfc2865::NAS_PORT_TYPE_ISDN_V120"),
        (61, rfc2865::NAS_PORT_TYPE_ISDN_V110 as u32, 4, "rfc2865::NAS_PORT_TYPE_ISDN_V110"),
        (61, rfc2865::NAS_PORT_TYPE_VIRTUAL as u32, 5, "rfc2865::NAS_PORT_TYPE_VIRTUAL"),
        (61, rfc2865::NAS_PORT_TYPE_PIAFS as u32, 6, "rfc2865::NAS_PORT_TYPE_PIAFS"),
        (61, rfc2865::NAS_PORT_TYPE_HDLC_CLEAR_CHANNEL as u32, 7, "rfc2865::NAS_PORT_TYPE_HDLC_CLEAR_CHANNEL"),
        (61, rfc2865::NAS_PORT_TYPE_X_25 as u32, 8, "rfc2865::NAS_PORT_TYPE_X_25"),
        (61, rfc2865::NAS_PORT_TYPE_X_75 as u32, 9, "rfc2865::NAS_PORT_TYPE_X_75"),
        (61, rfc2865::NAS_PORT_TYPE_G_3_FAX as u32, 10, "rfc2865::NAS_PORT_TYPE_G_3_FAX"),
        (61, rfc2865::NAS_PORT_TYPE_SDSL as u32, 11, "rfc2865::NAS_PORT_TYPE_SDSL"),
        (61, rfc2865::NAS_PORT_TYPE_ADSL_CAP as u32, 12, "rfc2865::NAS_PORT_TYPE_ADSL_CAP"),
        (61, rfc2865::NAS_PORT_TYPE_ADSL_DMT as u32, 13, "rfc2865::NAS_PORT_TYPE_ADSL_DMT"),
        (61, rfc2865::NAS_PORT_TYPE_IDSL as u32, 14, "rfc2865::NAS_PORT_TYPE_IDSL"),
        (61, rfc2865::NAS_PORT_TYPE_ETHERNET as u32, 15, "rfc2865::NAS_PORT_TYPE_ETHERNET"),
        (61, rfc2865::NAS_PORT_TYPE_X_DSL as u32, 16, "rfc2865::NAS_PORT_TYPE_X_DSL"),
        (61, rfc2865::NAS_PORT_TYPE_CABLE as u32, 17, "rfc2865::NAS_PORT_TYPE_CABLE"),
        (61, rfc2865::NAS_PORT_TYPE_WIRELESS_OTHER as u32, 18, "rfc2865::NAS_PORT_TYPE_WIRELESS_OTHER"),
        (61, rfc2865::NAS_PORT_TYPE_WIRELESS_802_11 as u32, 19, "rfc2865::NAS_PORT_TYPE_WIRELESS_802_11"),
        (40, rfc2866::ACCT_STATUS_TYPE_START as u32, 1, "rfc2866::ACCT_STATUS_TYPE_START"),
        (40, rfc2866::ACCT_STATUS_TYPE_STOP as u32, 2, "rfc2866::ACCT_STATUS_TYPE_STOP"),
        (40, rfc2866::ACCT_STATUS_TYPE_ALIVE as u32, 3, "rfc2866::ACCT_STATUS_TYPE_ALIVE"),
        (40, rfc2866::ACCT_STATUS_TYPE_INTERIM_UPDATE as u32, 3, "rfc2866::ACCT_STATUS_TYPE_INTERIM_UPDATE"),
        (40, rfc2866::ACCT_STATUS_TYPE_ACCOUNTING_ON as u32, 7, "rfc2866::ACCT_STATUS_TYPE_ACCOUNTING_ON"),
        (40, rfc2866::ACCT_STATUS_TYPE_ACCOUNTING_OFF as u32, 8, "rfc2866::ACCT_STATUS_TYPE_ACCOUNTING_OFF"),
        (40, rfc2866::ACCT_STATUS_TYPE_FAILED as u32, 15, "rfc2866::ACCT_STATUS_TYPE_FAILED"),
        (45, rfc2866::ACCT_AUTHENTIC_RADIUS as u32, 1, "rfc2866::ACCT_AUTHENTIC_RADIUS"),
        (45, rfc2866::ACCT_AUTHENTIC_LOCAL as u32, 2, "rfc2866::ACCT_AUTHENTIC_LOCAL"),
        (45, rfc2866::ACCT_AUTHENTIC_REMOTE as u32, 3, "rfc2866::ACCT_AUTHENTIC_REMOTE"),
        (45, rfc2866::ACCT_AUTHENTIC_DIAMETER as u32, 4, "rfc2866::ACCT_AUTHENTIC_DIAMETER"),
        (49, rfc2866::ACCT_TERMINATE_CAUSE_USER_REQUEST as u32, 1, "rfc2866::ACCT_TERMINATE_CAUSE_USER_REQUEST"),
        (49, rfc2866::ACCT_TERMINATE_CAUSE_LOST_CARRIER as u32, 2, "rfc2866::ACCT_TERMINATE_CAUSE_LOST_CARRIER"),
        (49, rfc2866::ACCT_TERMINATE_CAUSE_LOST_SERVICE as u32, 3, "rfc2866::ACCT_TERMINATE_CAUSE_LOST_SERVICE"),
        (49, rfc2866::ACCT_TERMINATE_CAUSE_IDLE_TIMEOUT as u32, 4, "rfc2866::ACCT_TERMINATE_CAUSE_IDLE_TIMEOUT"),
        (49, rfc2866::ACCT_TERMINATE_CAUSE_SESSION_TIMEOUT as u32, 5, "rfc2866::ACCT_TERMINATE_CAUSE_SESSION_TIMEOUT"),
        (49, rfc2866::ACCT_TERMINATE_CAUSE_ADMIN_RESET as u32, 6, "rfc2866::ACCT_TERMINATE_CAUSE_ADMIN_RESET"),
        (49, rfc2866::ACCT_TERMINATE_CAUSE_ADMIN_REBOOT as u32, 7, "rfc2866::ACCT_TERMINATE_CAUSE_ADMIN_REBOOT"),
        (49, rfc2866::ACCT_TERMINATE_CAUSE_PORT_ERROR as u32, 8, "rfc2866::ACCT_TERMINATE_CAUSE_PORT_ERROR"),
        (49, rfc2866::ACCT_TERMINATE_CAUSE_NAS_ERROR as u32, 9, "rfc2866::ACCT_TERMINATE_CAUSE_NAS_ERROR"),
        (49, rfc2866::ACCT_TERMINATE_CAUSE_NAS_REQUEST as u32, 10, "rfc2866::ACCT_TERMINATE_CAUSE_NAS_REQUEST"),
        (49, rfc2866::ACCT_TERMINATE_CAUSE_NAS_REBOOT as u32, 11, "rfc2866::ACCT_TERMINATE_CAUSE_NAS_REBOOT"),
        (49, rfc2866::ACCT_TERMINATE_CAUSE_PORT_UNNEEDED as u32, 12, "rfc2866::ACCT_TERMINATE_CAUSE_PORT_UNNEEDED"),
        (49, rfc2866::ACCT_TERMINATE_CAUSE_PORT_PREEMPTED as u32, 13, "rfc2866::ACCT_TERMINATE_CAUSE_PORT_PREEMPTED"),
        (49, rfc2866::ACCT_TERMINATE_CAUSE_PORT_SUSPENDED as u32, 14, "rfc2866::ACCT_TERMINATE_CAUSE_PORT_SUSPENDED"),
        (49, rfc2866::ACCT_TERMINATE_CAUSE_SERVICE_UNAVAILABLE as u32, 15, "rfc2866::ACCT_TERMINATE_CAUSE_SERVICE_UNAVAILABLE"),
        (49, rfc2866::ACCT_TERMINATE_CAUSE_CALLBACK as u32, 16, "rfc2866::ACCT_TERMINATE_CAUSE_CALLBACK"),
        (49, rfc2866::ACCT_TERMINATE_CAUSE_USER_ERROR as u32, 17, "rfc2866::ACCT_TERMINATE_CAUSE_USER_ERROR"),
        (49, rfc2866::ACCT_TERMINATE_CAUSE_HOST_REQUEST as u32, 18, "rfc2866::ACCT_TERMINATE_CAUSE_HOST_REQUEST"),
        (40, rfc2867::ACCT_STATUS_TYPE_TUNNEL_START as u32, 9, "rfc2867::ACCT_STATUS_TYPE_TUNNEL_START"),
        (40, rfc2867::ACCT_STATUS_TYPE_TUNNEL_STOP as u32, 10, "rfc2867::ACCT_STATUS_TYPE_TUNNEL_STOP"),
        (40, rfc2867::ACCT_STATUS_TYPE_TUNNEL_REJECT as u32, 11, "rfc2867::ACCT_STATUS_TYPE_TUNNEL_REJECT"),
        (40, rfc2867::ACCT_STATUS_TYPE_TUNNEL_LINK_START as u32, 12, "rfc2867::ACCT_STATUS_TYPE_TUNNEL_LINK_START"),
        (40, rfc2867::ACCT_STATUS_TYPE_TUNNEL_LINK_STOP as u32, 13, "rfc2867::ACCT_STATUS_TYPE_TUNNEL_LINK_STOP"),
        (40, rfc2867::ACCT_STATUS_TYPE_TUNNEL_LINK_REJECT as u32, 14, "rfc2867::ACCT_STATUS_TYPE_TUNNEL_LINK_REJECT"),
        (64, rfc2868::TUNNEL_TYPE_PPTP as u32, 1, "rfc2868::TUNNEL_TYPE_PPTP"),
        (64, rfc2868::TUNNEL_TYPE_L2F as u32, 2, "rfc2868::TUNNEL_TYPE_L2F"),
        (64, rfc2868::TUNNEL_TYPE_L2TP as u32, 3, "rfc2868::TUNNEL_TYPE_L2TP"),
        (64, rfc2868::TUNNEL_TYPE_ATMP as u32, 4, "rfc2868::TUNNEL_TYPE_ATMP"),
        (64, rfc2868::TUNNEL_TYPE_VTP as u32, 5, "rfc2868::TUNNEL_TYPE_VTP"),
        (64, rfc2868::TUNNEL_TYPE_AH as u32, 6, "rfc2868::TUNNEL_TYPE_AH"),
        (64, rfc2868::TUNNEL_TYPE_IP as u32, 7, "rfc2868::TUNNEL_TYPE_IP"),
        (64, rfc2868::TUNNEL_TYPE_MIN_IP as u32, 8, "rfc2868::TUNNEL_TYPE_MIN_IP"),
        (64, rfc2868::TUNNEL_TYPE_ESP as u32, 9, "rfc2868::TUNNEL_TYPE_ESP"),
        (64, rfc2868::TUNNEL_TYPE_GRE as u32, 10, "rfc2868::TUNNEL_TYPE_GRE"),
        (64, rfc2868::TUNNEL_TYPE_DVS as u32, 11, "rfc2868::TUNNEL_TYPE_DVS"),
        (64, rfc2868::TUNNEL_TYPE_IP_IN_IP as u32, 12, "rfc2868::TUNNEL_TYPE_IP_IN_IP"),
        (65, rfc2868::TUNNEL_MEDIUM_TYPE_IP as u32, 1, "rfc2868::TUNNEL_MEDIUM_TYPE_IP"),
        (65, rfc2868::TUNNEL_MEDIUM_TYPE_I_PV_4 as u32, 1, "rfc2868::TUNNEL_MEDIUM_TYPE_I_PV_4"),
        (65, rfc2868::TUNNEL_MEDIUM_TYPE_I_PV_6 as u32, 2, "rfc2868::TUNNEL_MEDIUM_TYPE_I_PV_6"),
        (65, rfc2868::TUNNEL_MEDIUM_TYPE_NSAP as u32, 3, "rfc2868::TUNNEL_MEDIUM_TYPE_NSAP"),
        (65, rfc2868::TUNNEL_MEDIUM_TYPE_HDLC as u32, 4, "rfc2868::TUNNEL_MEDIUM_TYPE_HDLC"),
        (65, rfc2868::TUNNEL_MEDIUM_TYPE_BBN_1822 as u32, 5, "rfc2868::TUNNEL_MEDIUM_TYPE_BBN_1822"),
        (65, rfc2868::TUNNEL_MEDIUM_TYPE_IEEE_802 as u32, 6, "rfc2868::TUNNEL_MEDIUM_TYPE_IEEE_802"),
        (65, rfc2868::TUNNEL_MEDIUM_TYPE_E_163 as u32, 7, "rfc2868::TUNNEL_MEDIUM_TYPE_E_163"),
        (65, rfc2868::TUNNEL_MEDIUM_TYPE_E_164 as u32, 8, "rfc2868::TUNNEL_MEDIUM_TYPE_E_164"),
        (65, rfc2868::TUNNEL_MEDIUM_TYPE_F_69 as u32, 9, "rfc2868::TUNNEL_MEDIUM_TYPE_F_69"),
        (65, rfc2868::TUNNEL_MEDIUM_TYPE_X_121 as u32, 10, "rfc2868::TUNNEL_MEDIUM_TYPE_X_121"),
        (65, rfc2868::TUNNEL_MEDIUM_TYPE_IPX as u32, 11, "rfc2868::TUNNEL_MEDIUM_TYPE_IPX"),
        (65, rfc2868::TUNNEL_MEDIUM_TYPE_APPLETALK as u32, 12, "rfc2868::TUNNEL_MEDIUM_TYPE_APPLETALK"),
        (65, rfc2868::TUNNEL_MEDIUM_TYPE_DEC_NET_IV as u32, 13, "rfc2868::TUNNEL_MEDIUM_TYPE_DEC_NET_IV"),
        (65, rfc2868::TUNNEL_MEDIUM_TYPE_BANYAN_VINES as u32, 14, "rfc2868::TUNNEL_MEDIUM_TYPE_BANYAN_VINES"),
        (65, rfc2868::TUNNEL_MEDIUM_TYPE_E_164_NSAP as u32, 15, "rfc2868::TUNNEL_MEDIUM_TYPE_E_164_NSAP"),
        (72, rfc2869::ARAP_ZONE_ACCESS_DEFAULT_ZONE as u32, 1, "rfc2869::ARAP_ZONE_ACCESS_DEFAULT_ZONE"),
        (72, rfc2869::ARAP_ZONE_ACCESS_ZONE_FILTER_INCLUSIVE as u32, 2, "rfc2869::ARAP_ZONE_ACCESS_ZONE_FILTER_INCLUSIVE"),
        (72, rfc2869::ARAP_ZONE_ACCESS_ZONE_FILTER_EXCLUSIVE as u32, 4, "rfc2869::ARAP_ZONE_ACCESS_ZONE_FILTER_EXCLUSIVE"),
        (76, rfc2869::PROMPT_NO_ECHO as u32, 0, "rfc2869::PROMPT_NO_ECHO"),
        (76, rfc2869::PROMPT_ECHO as u32, 1, "rfc2869::PROMPT_ECHO"),
        (6, rfc3576::SERVICE_TYPE_AUTHORIZE_ONLY as u32, 17, "rfc3576::SERVICE_TYPE_AUTHORIZE_ONLY"),
        (101, rfc3576::ERROR_CAUSE_RESIDUAL_CONTEXT_REMOVED as u32, 201, "rfc3576::ERROR_CAUSE_RESIDUAL_CONTEXT_REMOVED"),
        (101, rfc3576::ERROR_CAUSE_INVALID_EAP_PACKET as u32, 202, "rfc3576::ERROR_CAUSE_INVALID_EAP_PACKET"),
        (101, rfc3576::ERROR_CAUSE_UNSUPPORTED_ATTRIBUTE as u32, 401, "rfc3576::ERROR_CAUSE_UNSUPPORTED_ATTRIBUTE"),
        (101, rfc3576::ERROR_CAUSE_MISSING_ATTRIBUTE as u32, 402, "rfc3576::ERROR_CAUSE_MISSING_ATTRIBUTE"),
        (101, rfc3576::ERROR_CAUSE_NAS_IDENTIFICATION_MISMATCH as u32, 403, "rfc3576::ERROR_CAUSE_NAS_IDENTIFICATION_MISMATCH"),
        (101, rfc3576::ERROR_CAUSE_INVALID_REQUEST as u32, 404, "rfc3576::ERROR_CAUSE_INVALID_REQUEST"),
        (101, rfc3576::ERROR_CAUSE_UNSUPPORTED_SERVICE as u32, 405, "rfc3576::ERROR_CAUSE_UNSUPPORTED_SERVICE"),
        (101, rfc3576::ERROR_CAUSE_UNSUPPORTED_EXTENSION as u32, 406, "rfc3576::ERROR_CAUSE_UNSUPPORTED_EXTENSION"),
        (101, rfc3576::ERROR_CAUSE_ADMINISTRATIVELY_PROHIBITED as u32, 501, "rfc3576::ERROR_CAUSE_ADMINISTRATIVELY_PROHIBITED"),
        (101, rfc3576::ERROR_CAUSE_PROXY_REQUEST_NOT_ROUTABLE as u32, 502, "rfc3576::ERROR_CAUSE_PROXY_REQUEST_NOT_ROUTABLE"),
        (101, rfc3576::ERROR_CAUSE_SESSION_CONTEXT_NOT_FOUND as u32, 503, "rfc3576::ERROR_CAUSE_SESSION_CONTEXT_NOT_FOUND"),
        (101, rfc3576::ERROR_CAUSE_SESSION_CONTEXT_NOT_REMOVABLE as u32, 504, "rfc3576::ERROR_CAUSE_SESSION_CONTEXT_NOT_REMOVABLE"),
        (101, rfc3576::ERROR_CAUSE_PROXY_PROCESSING_ERROR as u32, 505, "rfc3576::ERROR_CAUSE_PROXY_PROCESSING_ERROR"),
        (101, rfc3576::ERROR_CAUSE_RESOURCES_UNAVAILABLE as u32, 506, "rfc3576::ERROR_CAUSE_RESOURCES_UNAVAILABLE"),
        (101, rfc3576::ERROR_CAUSE_REQUEST_INITIATED as u32, 507, "rfc3576::ERROR_CAUSE_REQUEST_INITIATED"),
        (49, rfc3580::ACCT_TERMINATE_CAUSE_SUPPLICANT_RESTART as u32, 19, "rfc3580::ACCT_TERMINATE_CAUSE_SUPPLICANT_RESTART"),
        (49, rfc3580::ACCT_TERMINATE_CAUSE_REAUTHENTICATION_FAILURE as u32, 20, "rfc3580::ACCT_TERMINATE_CAUSE_REAUTHENTICATION_FAILURE"),
        (49, rfc3580::ACCT_TERMINATE_CAUSE_PORT_REINIT as u32, 21, "rfc3580::ACCT_TERMINATE_CAUSE_PORT_REINIT"),
        (49, rfc3580::ACCT_TERMINATE_CAUSE_PORT_DISABLED as u32, 22, "rfc3580::ACCT_TERMINATE_CAUSE_PORT_DISABLED"),
        (61, rfc3580::NAS_PORT_TYPE_TOKEN_RING as u32, 20, "rfc3580::NAS_PORT_TYPE_TOKEN_RING"),
        (61, rfc3580::NAS_PORT_TYPE_FDDI as u32, 21, "rfc3580::NAS_PORT_TYPE_FDDI"),
        (64, rfc3580::TUNNEL_TYPE_VLAN as u32, 13, "rfc3580::TUNNEL_TYPE_VLAN"),
        (61, rfc4603::NAS_PORT_TYPE_PP_PO_A as u32, 30, "rfc4603::NAS_PORT_TYPE_PP_PO_A"),
        (61, rfc4603::NAS_PORT_TYPE_PP_PO_EO_A as u32, 31, "rfc4603::NAS_PORT_TYPE_PP_PO_EO_A"),
        (61, rfc4603::NAS_PORT_TYPE_PP_PO_EO_E as u32, 32, "rfc4603::NAS_PORT_TYPE_PP_PO_EO_E"),
        (61, rfc4603::NAS_PORT_TYPE_PP_PO_EO_VLAN as u32, 33, "rfc4603::NAS_PORT_TYPE_PP_PO_EO_VLAN"),
        (61, rfc4603::NAS_PORT_TYPE_PP_PO_EO_QIN_Q as u32, 34, "rfc4603::NAS_PORT_TYPE_PP_PO_EO_QIN_Q"),
        (57, rfc4675::INGRESS_FILTERS_ENABLED as u32, 1, "rfc4675::INGRESS_FILTERS_ENABLED"),
        (57, rfc4675::INGRESS_FILTERS_DISABLED as u32, 2, "rfc4675::INGRESS_FILTERS_DISABLED"),
        (101, rfc5176::ERROR_CAUSE_INVALID_ATTRIBUTE_VALUE as u32, 407, "rfc5176::ERROR_CAUSE_INVALID_ATTRIBUTE_VALUE"),
        (101, rfc5176::ERROR_CAUSE_MULTIPLE_SESSION_SELECTION_UNSUPPORTED as u32, 508, "rfc5176::ERROR_CAUSE_MULTIPLE_SESSION_SELECTION_UNSUPPORTED"),
        (6, rfc5607::SERVICE_TYPE_FRAMED_MANAGEMENT as u32, 18, "rfc5607::SERVICE_TYPE_FRAMED_MANAGEMENT"),
        (133, rfc5607::FRAMED_MANAGEMENT_SNMP as u32, 1, "rfc5607::FRAMED_MANAGEMENT_SNMP"),
        (133, rfc5607::FRAMED_MANAGEMENT_WEB_BASED as u32, 2, "rfc5607::FRAMED_MANAGEMENT_WEB_BASED"),
        (133, rfc5607::FRAMED_MANAGEMENT_NETCONF as u32, 3, "rfc5607::FRAMED_MANAGEMENT_NETCONF"),
        (133, rfc5607::FRAMED_MANAGEMENT_FTP as u32, 4, "rfc5607::FRAMED_MANAGEMENT_FTP"),
        (133, rfc5607::FRAMED_MANAGEMENT_TFTP as u32, 5, "rfc5607::FRAMED_MANAGEMENT_TFTP"),
        (133, rfc5607::FRAMED_MANAGEMENT_SFTP as u32, 6, "rfc5607::FRAMED_MANAGEMENT_SFTP"),
        (133, rfc5607::FRAMED_MANAGEMENT_RCP as u32, 7, "rfc5607::FRAMED_MANAGEMENT_RCP"),
        (133, rfc5607::FRAMED_MANAGEMENT_SCP as u32, 8, "rfc5607::FRAMED_MANAGEMENT_SCP"),
        (134, rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_NO_PROTECTION as u32, 1, "rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_NO_PROTECTION"),
        (134, rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_INTEGRITY_PROTECTION as u32, 2, "rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_INTEGRITY_PROTECTION"),
        (134, rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_INTEGRITY_CONFIDENTIALITY_PROTECTION as u32, 3, "rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_INTEGRITY_CONFIDENTIALITY_PROTECTION"),
        (163, rfc6677::EAP_LOWER_LAYER_WIRED_IEEE_802_1X as u32, 1, "rfc6677::EAP_LOWER_LAYER_WIRED_IEEE_802_1X"),
        (163, rfc6677::EAP_LOWER_LAYER_IEEE_802_1X_NO_PREAUTH as u32, 2, "rfc6677::EAP_LOWER_LAYER_IEEE_802_1X_NO_PREAUTH"),
        (163, rfc6677::EAP_LOWER_LAYER_IEEE_802_1X_PREAUTH as u32, 3, "rfc6677::EAP_LOWER_LAYER_IEEE_802_1X_PREAUTH"),
        (163, rfc6677::EAP_LOWER_LAYER_IEEE_802_1_6E as u32, 4, "rfc6677::EAP_LOWER_LAYER_IEEE_802_1_6E"),
        (163, rfc6677::EAP_LOWER_LAYER_IK_EV_2 as u32, 5, "rfc6677::EAP_LOWER_LAYER_IK_EV_2"),
        (163, rfc6677::EAP_LOWER_LAYER_PPP as u32, 6, "rfc6677::EAP_LOWER_LAYER_PPP"),
        (163, rfc6677::EAP_LOWER_LAYER_PANA_NO_PREAUTH as u32, 7, "rfc6677::EAP_LOWER_LAYER_PANA_NO_PREAUTH"),
        (163, rfc6677::EAP_LOWER_LAYER_GSS_API as u32, 8, "rfc6677::EAP_LOWER_LAYER_GSS_API"),
        (163, rfc6677::EAP_LOWER_LAYER_PANA_PREAUTH as u32, 9, "rfc6677::EAP_LOWER_LAYER_PANA_PREAUTH"),
    ]
}
