"""Only authenticated clients are served by the MQTT broker, and only topics they have access to."""
from rules.gates import Gate, run, ZERO, NONZERO, only, upto, supto, atleast, LE, EQ

BR = 'rrr_mqtt_broker_data.'
CO = 'rrr_mqtt_p_connect.'
CB = 'rrr_passwd_authenticate_callback_data.'
AUTH = 'rrr_passwd_authenticate'
ACL = 'rrr_mqtt_acl_check_access'
HC = '__rrr_mqtt_broker_handle_connect'
IS = 'rrr_mqtt_session_collection_methods.init_session'
RP = 'rrr_mqtt_session_collection_methods.receive_packet'
SINGLE = '__rrr_mqtt_acl_check_access_single'
TYPE = 'rrr_mqtt_p_type_properties.type_id'
NEVER = [('nothing', ZERO)]
NOT = lambda *v: only(*[x for x in _neg(sorted(v))])


def _neg(v):
    o = []; a = 0
    for x in v:
        if x > a: o.append((a, x - 1))
        a = x + 1
    return o + [(a, (1 << 64) - 1)]


GATES = [
    # ---- log in
    Gate(HC, ('call', IS), [
        [(CO + 'username', ZERO), ('byte', ZERO), (AUTH + '()', ZERO)],
        [(BR + 'disallow_anonymous_logins', ZERO), (AUTH + '()', ZERO)],
    ], 'a client gets its session'),
    Gate(HC, ('call', 'rrr_mqtt_conn_set_data_from_connect_and_connack'), [
        [(CO + 'username', ZERO), ('byte', ZERO), (AUTH + '()', ZERO)],
        [(BR + 'disallow_anonymous_logins', ZERO), (AUTH + '()', ZERO)],
    ], 'a client gets its session'),
    Gate(HC, ('call', AUTH), [(CO + 'password', NONZERO), (BR + 'password_file', NONZERO)], 'a password is verified'),
    Gate(AUTH, ('ret', ZERO), [
        (CB + 'user_ok', NONZERO), (CB + 'pass_ok', NONZERO), [(CB + 'permission_ok', NONZERO), ('param.permission_name', ZERO)],
        ('rrr_passwd_iterate_lines()', ZERO), ('rrr_socket_open_and_read_file()', ZERO),
        ('param.username', NONZERO), ('param.password', NONZERO), 
    ], 'a user is authenticated', noinline=['rrr_passwd_iterate_lines']),
    Gate('__rrr_passwd_authenticate_callback', ('store', CB + 'user_ok', NONZERO), [('strcmp()', ZERO)], 'a user is found'),
    Gate('__rrr_passwd_authenticate_callback', ('store', CB + 'pass_ok', NONZERO), [('rrr_passwd_check()', ZERO), ('strcmp()', ZERO)], 'a password is correct'),
    Gate('__rrr_passwd_authenticate_callback', ('store', CB + 'permission_ok', NONZERO), [('rrr_passwd_check()', ZERO), ('strcmp()', ZERO)], 'a permission is found'),
    Gate('rrr_passwd_check', ('ret', ZERO), [('byte', NONZERO), ('rrr_parse_str_split()', ZERO)], 'a password is correct'),
    Gate('__rrr_passwd_check_callback', ('ret', ZERO), [('byte', NONZERO), [('memcmp()', ZERO), ('strcmp()', ZERO)], ('param.elements_count', only(4))], 'a password is correct'),
    Gate('__rrr_passwd_check_base64', ('ret', ZERO), [('strcmp()', ZERO), ('rrr_base64_encode()', NONZERO)], 'a password is correct'),
    Gate('__rrr_passwd_check_openssl', ('ret', ZERO), [
        ('memcmp()', ZERO), ('rrr_base64_decode()', NONZERO), ('__rrr_passwd_openssl_encrypt()', ZERO), ('rrr_base64_decode()[2]', atleast(256)),
    ], 'a password is correct', noinline=['__rrr_passwd_openssl_encrypt']),
    Gate('__rrr_passwd_openssl_encrypt', ('ret', ZERO), [('PKCS5_PBKDF2_HMAC()', only(1))], 'a password is hashed'),
    Gate(HC, ('call', '__rrr_mqtt_broker_check_unique_client_id', 2, 'rrr_mqtt_p_connect.client_identifier'), [
        [('strlen()', upto(11)), ('strcmp()', NONZERO), ('strncmp()', NONZERO), ('memcmp()', NONZERO), ('rrr_mqtt_session_collection_methods.get_session()[0]', NONZERO)],
    ], 'a client identifier is accepted', noinline=['__rrr_mqtt_broker_check_unique_client_id']),
    # ---- access lists
    Gate(SINGLE, ('ret', ZERO), [
        ('param.action', only(1, 2)), ('param.requested_access_level', only(1, 2)),
        [('param.requested_access_level', only(1)), ('param.action', only(2))],
    ], 'access is allowed'),
    Gate(ACL, ('call', SINGLE), [('param.match_function()', ZERO)], 'an entry of the access list is used', noinline=[SINGLE], reset=['param.match_function']),
    Gate(ACL, ('call', SINGLE, 0, 'rrr_mqtt_acl_user_entry.action'), [('strcmp()', ZERO)], 'the entry of a user is used', noinline=[SINGLE, 'rrr_mqtt_topic_match_tokens_recursively', 'rrr_mqtt_topic_match_tokens_recursively_acl']),
    Gate(ACL, ('retc', ZERO), NEVER, 'access is allowed without an entry of the access list', noinline=[SINGLE], least=0),
    Gate('__rrr_mqtt_acl_entry_collection_push_new', ('store', 'rrr_mqtt_acl_entry.default_action', NONZERO), NEVER, 'an entry starts with allowed access', least=0),
    Gate('__rrr_mqtt_acl_parse_acl_action', ('ret', ZERO), [('rrr_parse_match_word_case()', only(1))], 'an action is accepted'),
    Gate('mqttbroker_parse_acl', ('call', 'rrr_mqtt_acl_entry_collection_push_allow_all'), [('mqtt_broker_data.acl_file', ZERO)], 'everything is allowed'),
    Gate('mqttbroker_parse_acl', ('ret', ZERO), [
        [('mqtt_broker_data.acl_file', ZERO), ('rrr_mqtt_acl_entry_collection_populate_from_file()', ZERO)],
    ], 'the access list is accepted', noinline=['rrr_mqtt_acl_entry_collection_populate_from_file']),
    # ---- packets
    Gate('rrr_mqtt_common_handle_publish', ('call', RP), [('rrr_mqtt_data.acl_handler()', ZERO)], 'a PUBLISH is delivered'),
    Gate('__rrr_mqtt_broker_handle_subscribe', ('call', RP), [('rrr_mqtt_data.acl_handler()&1', ZERO)], 'a SUBSCRIBE is delivered'),
    Gate('__rrr_mqtt_broker_acl_handler', ('ret', ZERO), [
        [(TYPE, NOT(3)), (ACL + '()', ZERO)],
    ], 'a packet is allowed', noinline=[ACL]),
    Gate('__rrr_mqtt_broker_acl_handler', ('ret', ZERO), [('rrr_mqtt_subscription.qos_or_reason_v5', only(0x87))], 'a subscription is allowed', noinline=[ACL],
        when=[(TYPE, only(8)), (ACL + '()', NONZERO)]),
    Gate('__rrr_mqtt_broker_acl_handler', ('ret', ZERO), [(ACL + '(2)', only(1, 2))], 'a subscription is allowed', noinline=[ACL],
        when=[(TYPE, only(8)), ('rrr_mqtt_subscription_collection.ptr_first', NONZERO)]),
    Gate('rrr_mqtt_subscription_collection_append_unique_copy_from_collection', ('call', 'rrr_mqtt_subscription_clone'), [
        [('param.include_invalid_entries', NONZERO), ('rrr_mqtt_subscription.qos_or_reason_v5', upto(2))],
    ], 'a subscription is stored'),
    Gate(['__rrr_mqtt_session_ram_add_subscriptions'], ('call', 'rrr_mqtt_subscription_collection_append_unique_copy_from_collection', 2, NONZERO), NEVER, 'denied subscriptions are stored', least=0),
    Gate('__rrr_mqtt_broker_acl_handler_publish', ('call', ACL, 2, NOT(2)), NEVER, 'access to PUBLISH is granted without write access', least=0, noinline=[ACL]),
    Gate('__rrr_mqtt_broker_acl_handler_subscribe', ('call', ACL, 2, NOT(1, 2)), NEVER, 'access to SUBSCRIBE is granted without read access', least=0, noinline=[ACL]),
    Gate('__rrr_mqtt_broker_handle_connect_will', ('call', 'rrr_mqtt_session_collection_methods.register_will_publish', 2, NONZERO), [(ACL + '()', ZERO)],
        'a will message is registered', noinline=[ACL, '__rrr_mqtt_broker_new_will_publish']),
    Gate('__rrr_mqtt_broker_handle_connect_will', ('call', ACL, 2, NOT(2)), NEVER, 'access to a will message is granted without write access', least=0, noinline=[ACL, '__rrr_mqtt_broker_new_will_publish']),
    Gate('__rrr_mqtt_common_handle_packet_callback', ('call', 'rrr_mqtt_type_handler_properties.handler'), [
        [(TYPE, only(1, 2)), ('rrr_mqtt_conn.state_flags&8', NONZERO)],
        [(TYPE, NOT(1)), ('rrr_mqtt_conn.state_flags', ZERO)],
        [(TYPE, NOT(2)), ('rrr_mqtt_conn.state_flags&2', NONZERO)],
    ], 'a packet is processed'),
]


def check(ctx): run(ctx, GATES)
