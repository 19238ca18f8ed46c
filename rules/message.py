"""Messages from the network are verified before anything is done with them."""
from rules.gates import Gate, run, ZERO, NONZERO, only, upto, supto, atleast, LE, EQ

RECV = 'rrr_msg_to_host_and_verify_with_callback'
HEAD = [('rrr_msg_head_to_host_and_verify()', ZERO), ('rrr_msg_check_data_checksum_and_length()', ZERO)]
TYPE = 'rrr_msg.msg_type'


def handed(cb, what, typ, *more):
    return Gate(RECV, ('call', 'param.' + cb), HEAD + [(TYPE, only(typ)) if typ != 1 else (TYPE + '&1', only(1)), ('param.' + cb, NONZERO)] + list(more),
                'a received %s message is handed over' % what)


GT = 'rrr_msg_get_target_size_and_check_checksum'
RF = 'rrr_socket_open_and_read_file_head'
VERIFIERS = ['rrr_msg_head_to_host_and_verify', 'rrr_msg_check_data_checksum_and_length', 'rrr_msg_msg_to_host_and_verify', 'rrr_msg_get_target_size_and_check_checksum']
VERIFIED = [(v + '()', ZERO) for v in VERIFIERS[:3]]

GATES = [
    handed('callback_msg', 'data', 2, ('rrr_msg_msg_to_host_and_verify()', ZERO)),
    handed('callback_addr_msg', 'address', 8, ('rrr_msg_addr_to_host()', ZERO)),
    handed('callback_log_msg', 'log', 16, ('rrr_msg_msg_log_to_host()', ZERO)),
    handed('callback_ctrl_msg', 'control', 1),
    handed('callback_stats_msg', 'statistics', 6, ('rrr_msg_stats_flip_and_unpack()', ZERO)),
    Gate('rrr_msg_head_to_host_and_verify', ('ret', ZERO), [
        EQ('rrr_msg.msg_size', 'param.expected_size'), ('param.expected_size', atleast(18)),
        [(TYPE + '&1', only(1)), (TYPE, only(2, 4, 6, 8, 16))],
        [(TYPE + '&1', ZERO), (TYPE + '&4034', ZERO)],
    ], 'the head of a message is accepted'),
    Gate('rrr_msg_get_target_size_and_check_checksum', ('ret', ZERO), [
        ('param.buf_size', atleast(18)), ('rrr_crc32cmp()', ZERO),
    ], 'the size of a message is taken from its head'),
    Gate('rrr_msg_check_data_checksum_and_length', ('ret', ZERO), [
        EQ('rrr_msg.msg_size', 'param.data_size'), ('rrr_crc32cmp()', ZERO),
    ], 'the data of a message is accepted'),
    Gate('rrr_msg_msg_to_host_and_verify', ('ret', ZERO), [
        ('rrr_msg_msg.msg_size', atleast(30)), ('param.expected_size', atleast(30)), EQ('rrr_msg_msg.msg_size', 'param.expected_size'),
        LE('rrr_msg_msg.topic_length', 'rrr_msg_msg.msg_size', -30),
        ('rrr_msg_msg.type_and_class&240', only(1, 11)), ('rrr_msg_msg.type_and_class&15', only((1, 5))),
        ('rrr_utf8_validate()', ZERO),
    ], 'a data message is accepted'),
    Gate('rrr_msg_addr_to_host', ('ret', ZERO), [
        ('rrr_msg_addr.msg_size', only((19, 147))),
    ], 'an address message is accepted'),
    Gate('rrr_msg_msg_log_to_host', ('ret', ZERO), [
        ('rrr_msg_log.msg_size', atleast(155)),
        LE('rrr_msg_log.prefix_size', 'rrr_msg_log.msg_size', -155),
        [('rrr_msg_log.prefix_size', ZERO), ('rrr_msg_log.prefix_and_message', ZERO)], ('byte', ZERO),
    ], 'a log message is accepted'),
    Gate(['rrr_msg_stats_flip_and_unpack', 'rrr_msg_stats_unpack'], ('ret', ZERO), [
        ('param.expected_size', only((25, 1050))),
        LE('rrr_msg_stats_packed.path_size', 'param.expected_size', -25),
        ('rrr_msg_stats_packed.path_size', upto(513)),
        LE('param.expected_size', 'rrr_msg_stats_packed.path_size', 25 + 512),
        ('rrr_msg_stats_packed.type', only((0, 3))),
        ('rrr_msg_stats_packed.flags&4294967280', ZERO),
        [('rrr_msg_stats_packed.path_size', ZERO), ('rrr_msg_stats_packed.path_and_data', ZERO)],
    ], 'a statistics message is accepted'),
    Gate('rrr_array_message_iterate', ('call', 'param.callback'), [
        ('rrr_msg_msg.version', only(7)), ('rrr_type_get_from_id()', NONZERO), ('rrr_type_definition.unpack', NONZERO),
        LE('add(rrr_array_value_packed.tag_length,rrr_array_value_packed.total_length)', '?'),
    ], 'a value in an array message is accepted'),
    Gate('__rrr_type_msg_to_host_single', ('ret', ZERO), VERIFIED + [('rrr_msg_get_target_size_and_check_checksum()', ZERO), LE(GT + '()[0]', 'param.max_size')],
        'a message in an array value is accepted', noinline=VERIFIERS),
    Gate('mqttclient_try_get_rrr_msg_msg_from_publish', ('call', ('memcpy', 'llvm.memcpy.p0.p0.i64')), VERIFIED + [('rrr_msg_get_target_size_and_check_checksum()', ZERO), EQ('rrr_mqtt_p_payload.size', 'rrr_msg_get_target_size_and_check_checksum()[0]')],
        'a message received by MQTT is handed on', noinline=VERIFIERS),
    Gate('httpserver_receive_raw_broker_callback', ('store', 'rrr_msg_holder.message', NONZERO), VERIFIED,
        'a message received by websocket is handed on', noinline=VERIFIERS),
    Gate('__rrr_msgdb_server_open_and_read_file', ('ret', ZERO), [
        ('rrr_msg_head_to_host_and_verify()', ZERO), ('rrr_msg_msg_to_host_and_verify()', ZERO), (TYPE, only(2)),
        [('param.topic_to_verify', ZERO), (('memcmp()', ZERO), EQ('rrr_msg_msg.topic_length', 'strlen()'))],
        (RF + '()[2]', only((18, 0xffffffff))), [('param.do_head_only', NONZERO), ((GT + '()', ZERO), EQ(GT + '()[0]', RF + '()[2]'))],
        ], 'a message read from a file of the message database is accepted', noinline=VERIFIERS + [RF]),
]


def check(ctx): run(ctx, GATES)
