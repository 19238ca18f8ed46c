"""Malformed HTTP and websocket data is not accepted."""
from rules.gates import Gate, run, ZERO, NONZERO, only, upto, supto, atleast, LE, EQ

WS = 'rrr_websocket_header.'
PART = 'rrr_http_part.'
RS = 'rrr_read_session.'
CRLF = ('rrr_http_util_find_crlf()', NONZERO)
WHSP = ('rrr_http_util_find_whsp()', NONZERO)
CTRL = only((8, 10))
OP = WS + 'opcode'
STR = 'rrr_http_util_strtoull_raw'
UT = ['rrr_http_util_strtoull_raw', 'rrr_http_util_strcasestr', 'rrr_http_util_find_crlf', 'rrr_http_util_find_whsp']
GETV = 'rrr_http_part_header_field_get_with_value_case'
GET = 'rrr_http_part_header_field_get'
CB = 'rrr_http_application_callbacks.'
RTS = '__rrr_http_application_http1_receive_get_target_size'
VR = '__rrr_http_application_http1_receive_get_target_size_validate_request'
ACC = '__rrr_http_application_http1_websocket_make_accept_string'
CH = '__rrr_http_application_http1_websocket_response_check_headers'
PARTS = ['__rrr_http_part_' + x for x in ('parse_request', 'parse_response_code', 'header_fields_parse', 'request_method_and_format_to_enum', 'parse_chunked')]
FP = ('__rrr_http_part_header_fields_parse()', ZERO)

GATES = [
    # ---- websocket
    Gate('__rrr_websocket_get_target_size', ('store', RS + 'target_size', NONZERO), [
        *[[(WS + 'rsv%d' % n, ZERO), ('rrr_be16toh()&%d' % b, ZERO), ('?&%d' % (b >> 8), ZERO)] for n, b in ((1, 0x4000), (2, 0x2000), (3, 0x1000))],
        (RS + 'rx_buf_wpos', atleast(2)),
    ], 'the header of a websocket frame is accepted'),
    Gate('__rrr_websocket_get_target_size', ('store', RS + 'target_size', only(0, 1, (1 << 63, (1 << 64) - 1))), [('nothing', ZERO)],
        'a length of a websocket frame outside of the allowed range is used', least=0),
    Gate('__rrr_websocket_receive_callback_interpret_step', ('call', ('rrr_nullsafe_str_with_tmp_str_do', 'rrr_nullsafe_str_append_raw')), [
        (OP, only((0, 2), (8, 10))), 
        [(OP, only((0, 2))), *[(f, NONZERO) for f in (WS + 'fin', 'rrr_websocket_state.receive_state', 'rrr_websocket_state_receive.header')]],
        [(OP, only((0, 2))), LE(RS + 'rx_buf_wpos', WS + 'header_len', 125)],
        ('rrr_websocket_state.last_receive_opcode', NONZERO),
    ], 'a websocket frame is processed'),
    # ---- HTTP/1
    Gate('__rrr_http_part_parse_response_code', ('ret', ZERO), [
        CRLF, (STR + '()', ZERO), ('rrr_http_util_strcasestr()', ZERO),
        (PART + 'response_code', upto(999)),
    ], 'the first line of a response is accepted', noinline=UT),
    Gate('__rrr_http_part_parse_request', ('ret', ZERO), [
        CRLF, WHSP, ('rrr_http_util_strcasestr()', ZERO), ('rrr_length_from_ptr_sub_err()[0]', only((1, 10))),
        EQ('?', 'rrr_http_util_find_crlf()'),
    ], 'the first line of a request is accepted', noinline=UT),
    Gate('__rrr_http_part_parse_chunk_header', ('ret', ZERO), [
        CRLF, (STR + '()', ZERO), EQ('?', STR + '()[1]'),
    ], 'the header of a chunk is accepted', noinline=UT),
    Gate('__rrr_http_part_parse_chunk', ('call', '__rrr_http_part_parse_chunk_header'), [
        [('rrr_http_chunks.ptr_last', ZERO), ('rrr_http_chunks.node_count', ZERO), LE('rrr_http_chunk.length', '?')],
    ], 'the header of a chunk is read', noinline=['__rrr_http_part_parse_chunk_header'] + UT),
    Gate('rrr_http_part_parse', ('ret', ZERO), [
        [('param.parse_type', atleast(1)), ('__rrr_http_part_request_method_and_format_to_enum()', ZERO)],
        [(GET + '("content-length")', ZERO), LE('rrr_http_header_field.value_unsigned', '?')],
    ], 'the header of a request or response is accepted', noinline=UT + PARTS, when=[FP], unless=[(PART + 'is_chunked', only(1))]),
    Gate('rrr_http_part_parse', ('store', PART + 'header_complete', NONZERO), [FP], 'the header of a request or response is complete', noinline=UT + PARTS),
    Gate('rrr_http_part_parse', ('call', '__rrr_http_part_header_fields_parse'), [
        [(PART + 'parsed_application_type', NONZERO), ('param.parse_type', only(2)), ('__rrr_http_part_parse_request()', ZERO), ('__rrr_http_part_parse_response_code()', ZERO)],
        [LE('?', x, 65536) for x in (PART + 'headroom_length', '__rrr_http_part_parse_request()[1]', '__rrr_http_part_parse_response_code()[1]')],
    ], 'the fields of a header are read', noinline=UT + PARTS),
    Gate('rrr_http_part_parse', ('call', '__rrr_http_part_parse_chunk'), [
        ('param.parse_type', only((0, 1), (3, 1 << 63))),
    ], 'chunks are read', noinline=UT + [x for x in PARTS if x != '__rrr_http_part_parse_chunked']),
    Gate('__rrr_http_part_request_method_and_format_to_enum', ('ret', ZERO), [
        ('rrr_nullsafe_str_cmpto()', ZERO), ('*param.method', only((1, 7))),
    ], 'a request method is accepted'),
    Gate('__rrr_http_header_parse_single_value_verify', ('ret', ZERO), [
        ('rrr_http_field_collection.node_count', supto(1)), ('rrr_http_field_collection.node_count', NONZERO), ('rrr_nullsafe_str_isset()', ZERO),
    ], 'a field with a single value is accepted'),
    Gate('__rrr_http_header_field_trim_name_if_required', ('ret', ZERO), [
        ('rrr_nullsafe_str_len()', NONZERO),
    ], 'a value which may be empty is accepted'),
    Gate('__rrr_http_header_parse_single_unsigned_value', ('ret', ZERO), [
        ('rrr_http_util_strtoull()', ZERO), ('__rrr_http_header_parse_single_value_verify()', ZERO), EQ('strlen()', 'rrr_nullsafe_str_len()'),
    ], 'a field with a number is accepted', noinline=UT),
    Gate('__rrr_http_header_parse_single_string_value', ('ret', ZERO), [
        ('__rrr_http_header_parse_single_value_verify()', ZERO), ('__rrr_http_header_field_trim_name_if_required()', ZERO),
    ], 'a field with a text is accepted'),
    Gate('__rrr_http_header_parse_base64_value', ('ret', ZERO), [
        ('__rrr_http_header_parse_single_string_value()', ZERO), ('rrr_nullsafe_str_with_raw_do_const_return_str()', NONZERO), ('rrr_length_from_biglength_err()', ZERO),
    ], 'a field with encoded data is accepted'),
    Gate('__rrr_http_header_parse_first_string_value', ('ret', ZERO), [
        ('rrr_http_field_collection.node_count', NONZERO), ('rrr_nullsafe_str_isset()', ZERO), ('__rrr_http_header_field_trim_name_if_required()', ZERO),
    ], 'a field with several values is accepted'),
    Gate(RTS, ('store', RS + 'target_size', NONZERO), [
        [('rrr_http_part_parse()', ZERO), ('rrr_http_application_http2_new()', ZERO)],
        [(CB + 'unique_id_generator_callback', ZERO), ('rrr_http_application_http1.callbacks', ZERO), (VR + '()', ZERO), ('rrr_http_transaction_request_reset()', ZERO), ('rrr_http_application_http2_new()', ZERO)],
    ], 'the size of a request or response is used', noinline=[VR]),
    Gate(VR, ('ret', ZERO), [
        (PART + 'request_method', NONZERO),
        *[[(PART + 'request_method', atleast(5))] + x for x in (
            [(GET + '("content-length")', ZERO), ('rrr_http_header_field.value_unsigned', ZERO)],
            [(GET + '("transfer-encoding")', ZERO)], [(GET + '("content-type")', ZERO)])],
    ], 'a request is accepted'),
    # ---- upgrades
    Gate('__rrr_http_application_http1_request_upgrade_try', ('store', PART + 'response_code', only(101)), [
        (GETV + '("upgrade")', NONZERO),
        (GETV + '("connection")', NONZERO),
        [(GETV + '("websocket")', ZERO), (GETV + '("h2c")', ZERO)],
    ], 'a request to upgrade is granted'),
    Gate('__rrr_http_application_http1_request_upgrade_try_websocket', ('store', PART + 'response_code', only(101)), [
        (PART + 'request_method', only(1)), (RS + 'rx_overshoot_size', ZERO), 
        (GET + '("sec-websocket-version")', NONZERO), ('rrr_nullsafe_str_cmpto("13")', ZERO),
        (GET + '("sec-websocket-key")', NONZERO), ('rrr_nullsafe_str_len()', only(16)),
        [(CB + 'upgrade_verify_callback', ZERO), (CB + 'upgrade_verify_callback()', ZERO)],
        (CB + 'websocket_callback()', ZERO), ('*param.do_websocket', only(1)),
        (ACC + '()', ZERO), 
    ], 'a request to upgrade to websocket is granted', noinline=[ACC]),
    Gate('__rrr_http_application_http1_request_upgrade_try_http2', ('store', PART + 'response_code', only(101)), [
        (PART + 'request_method', only(1, 2)), (GETV + '("http2-settings")', NONZERO), (GET + '("http2-settings")', NONZERO),
        ('rrr_http_application_http2_new_from_upgrade()', ZERO),
        [(CB + 'upgrade_verify_callback', ZERO), (CB + 'upgrade_verify_callback()', ZERO)],
        [(CB + 'upgrade_verify_callback', ZERO), (CB + 'upgrade_verify_callback()[0]', NONZERO)],
    ], 'a request to upgrade to HTTP/2 is granted'),
    Gate('__rrr_http_application_http1_websocket_response_check_headers', ('ret', ZERO), [
        (GETV + '("connection")', NONZERO), (GET + '("sec-websocket-accept")', NONZERO), ('strcmp()', ZERO), (ACC + '()', ZERO),
    ], 'a response to an upgrade to websocket is accepted', noinline=[ACC]),
    Gate('__rrr_http_application_http1_response_receive_callback', ('store', 'rrr_http_application_http1.upgrade_active', only(1)), [
        (PART + 'response_code', only(101)), 
        ('rrr_http_part_header_field_get_raw("upgrade")', NONZERO), (GETV + '("websocket")', NONZERO),
        (CH + '()', ZERO), (CB + 'websocket_callback()', ZERO), (CB + 'websocket_callback()[0]', only(1)),
    ], 'an upgrade to websocket is made', noinline=[CH]),
    Gate('__rrr_http_application_http1_response_receive_callback', ('call', 'rrr_http_application_http2_new_from_upgrade'), [
        (PART + 'response_code', only(101)),
        ('rrr_http_part_header_field_get_raw("upgrade")', NONZERO), (GETV + '("h2c")', NONZERO),
    ], 'an upgrade to HTTP/2 is made', noinline=[CH]),
]


def check(ctx): run(ctx, GATES)
