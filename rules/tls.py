"""TLS connections are only used when the peer has been verified, and TLS is used where it is asked for."""
from rules.gates import Gate, run, ZERO, NONZERO, only, upto, supto, atleast, LE, EQ

CTX = 'rrr_net_transport_openssl_common_new_ctx'
HS = '__rrr_net_transport_openssl_handshake'
H = 'rrr_net_transport_handle.'
C = 'rrr_net_transport_config.'
NEVER = [('nothing', ZERO)]
NOCHK = '__rrr_net_transport_openssl_common_verify_always_ok'
TLS12 = 0x303
CONN = ['__rrr_net_transport_openssl_connect_callback', '__rrr_net_transport_openssl_accept_callback', '__rrr_net_transport_openssl_bind_and_listen_callback']
CERT = '(^|.*[^a-z])'

SEL = '__rrr_http_client_request_send_intermediate_transport_select'
NOT = lambda v: ((0, v - 1), (v + 1, (1 << 64) - 1))

GATES = [
    # ---- context
    Gate(CTX, ('ret', ZERO), [
        ('SSL_CTX_set_verify(1)', only(1)), ('SSL_CTX_set_verify(2)', ZERO), ('SSL_CTX_ctrl()', only(1)), ('SSL_CTX_ctrl(1)', only(123)),
        ('rrr_openssl_load_verify_locations()', ZERO),
        [('param.flags&2', NONZERO), ('SSL_CTX_ctrl(2)', atleast(TLS12))],
        ('SSL_CTX_ctrl(2)', atleast(0x302)),
        [('param.private_key_file', ZERO), ('byte', ZERO), ('SSL_CTX_check_private_key()', only(1))],
        [('param.private_key_file', ZERO), ('byte', ZERO), ('SSL_CTX_use_PrivateKey_file()', ((1, 0x7fffffff),))],
        [('param.certificate_file', ZERO), ('byte', ZERO), ('SSL_CTX_use_certificate_chain_file()', ((1, 0x7fffffff),))],
    ], 'a TLS context is set up', noinline=['rrr_openssl_load_verify_locations']),
    Gate(CTX, ('call', 'SSL_CTX_set_cert_verify_callback'), [('param.flags&1', NONZERO)], 'the verification of certificates is replaced'),
    Gate(CTX, ('call', 'SSL_CTX_set_verify', 1, ((0, 0), (2, (1 << 64) - 1))), NEVER, 'the verification of peers is turned off', least=0),
    Gate('rrr_openssl_load_verify_locations', ('ret', ZERO), [('SSL_CTX_load_verify_locations()', only(1))], 'trusted certificates are loaded'),
    # ---- handshake
    Gate(HS, ('ret', ZERO), [
        ('SSL_do_handshake()', only(1)), ('SSL_get_verify_result()', ZERO),
        [('SSL_is_server()', NONZERO), ('SSL_get1_peer_certificate()', NONZERO), ('SSL_get_peer_certificate()', NONZERO)],
    ], 'a TLS handshake is complete'),
    Gate('__rrr_net_transport_event_handshake', ('store', H + 'handshake_complete', NONZERO), [
        ('rrr_net_transport_methods.handshake()', ZERO),
        [('rrr_net_transport.handshake_complete_callback', ZERO), ('rrr_net_transport.handshake_complete_callback()', ZERO)],
    ], 'a connection is marked as secured'),
    Gate(['__rrr_net_transport_event_read', '__rrr_net_transport_event_read_add_if_needed', '__rrr_net_transport_event_read_fake', '__rrr_net_transport_event_first_read_timeout'],
        ('call', ['rrr_net_transport.read_callback', 'rrr_net_transport_event_collections.read_callback']), [(H + 'handshake_complete', NONZERO)], 'data is read from a connection', least=0),
    # ---- contexts are used as made
    Gate(CONN, ('call', 'BIO_new_ssl'), [(CTX + '()', ZERO)], 'a TLS connection is set up', noinline=[CTX]),
    Gate('__rrr_net_transport_openssl_bind_and_listen', ('call', 'rrr_net_transport_handle_allocate_and_add'), [
        ('rrr_net_transport_tls.certificate_file', NONZERO), ('rrr_net_transport_tls.private_key_file', NONZERO),
    ], 'a TLS server is started'),
    # ---- options
    Gate('__rrr_http_client_request_send_transport_keepalive_ensure', ('call', 'rrr_net_transport_new', 3, NONZERO), [('param.ssl_no_cert_verify', NONZERO)], 'certificate verification is turned off'),
    # ---- TLS where asked for
    Gate('influxdb_parse_config', ('ret', ZERO), [[(C + 'transport_type_f&2', ZERO), (C + 'transport_type_p', only(2))]], 'the configuration of the influxdb module is accepted'),
    Gate('mqttclient_parse_config', ('call', 'rrr_instance_config_read_optional_port_number'), [[(C + 'transport_type_f&2', ZERO), (C + 'transport_type_p', only(2))]], 'the port of the mqttclient module is read'),
    Gate('__rrr_net_transport_event_write', ('call', 'rrr_socket_send_chunk_collection_send_with_callback'), [(H + 'handshake_complete', NONZERO)], 'data is written to a connection'),
    Gate('rrr_net_transport_tls_common_new', ('storebits', 'rrr_net_transport_tls.flags_tls', 1), [('param.flags_tls&1', NONZERO)], 'certificate verification is turned off'),
    Gate(['rrr_mqtt_transport_start', 'rrr_http_server_start_tls', 'rrr_http_server_start_plain'], ('call', 'rrr_net_transport_new', 3, ((1, 1), (3, (1 << 64) - 1))), NEVER, 'certificate verification is turned off', least=0),
    Gate('thread_entry_influxdb', ('call', 'rrr_net_transport_new_simple', 3, NONZERO), NEVER, 'certificate verification is turned off', least=0),
    Gate('__rrr_net_transport_new', ('call', 'rrr_net_transport_plain_new'), [(C + 'transport_type_p', only(1))], 'a connection without TLS is made'),
    Gate('rrr_mqtt_transport_start', ('call', 'rrr_net_transport_config_copy_mask_tls'), [(C + 'transport_type_p', only(1))], 'a connection without TLS is made'),
    Gate('httpserver_start_listening', ('call', 'rrr_http_server_start_plain'), [(C + 'transport_type_f&1', NONZERO)], 'a server without TLS is started'),
    Gate('rrr_net_transport_config_parse', ('ret', ZERO), [
        [((C + 'tls_certificate_file', ZERO), (C + 'tls_key_file', ZERO)), ((C + 'tls_certificate_file', NONZERO), (C + 'tls_key_file', NONZERO))],
        ('rrr_instance_config_traverse_split_commas_silent_fail()', ZERO),
        [(C + 'transport_type_f&2', NONZERO), (C + 'tls_certificate_file', ZERO), ('param.allow_tls_parameters_without_tls', NONZERO)],
    ], 'the configuration of a transport is accepted'),
    Gate(SEL, ('call', '__rrr_http_client_request_send_intermediate_connect'), [
        [('param.transport_code', NOT(2)), ('rrr_http_client.transport_keepalive_tls', NONZERO)],
        [('param.transport_code', only(2, 3)), ('rrr_http_client_request_data.transport_force', ZERO), EQ('rrr_http_client_request_data.transport_force', 'param.transport_code')],
    ], 'a request is sent'),
]


def check(ctx):
    run(ctx, GATES)
