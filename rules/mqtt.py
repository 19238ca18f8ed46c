"""MQTT packets which break the rules of the protocol are not accepted."""
from rules.gates import Gate, run, LE, ZERO, NONZERO, only, upto, supto, atleast

S = 'rrr_mqtt_parse_session.'
ST = S + 'status'
def PID(t): return ('rrr_mqtt_p_%s.packet_identifier' % t, NONZERO)
V5 = ('rrr_mqtt_p_protocol_version.id', atleast(5))
V3 = ('rrr_mqtt_p_protocol_version.id', upto(4))
CF = 'rrr_mqtt_p_connect.connect_flags'
TF = 'rrr_mqtt_p_publish.type_flags'
HEADER = ('storebits', ST, 2)
DONE = ('storebits', ST, 4)
RESUMED = [(ST + '&2', NONZERO)]
SUB = 'rrr_mqtt_subscription_new'
ANY = ((0, 1 << 64),)
U8 = '__rrr_mqtt_parse_utf8'
PROPS = '__rrr_mqtt_parse_properties'
END = LE(S + 'buf+' + S + 'target_size', '?')           # everything in the packet has been read
INBUF = LE('?', S + 'buf+' + S + 'buf_wpos')             # what is read has been received

GATES = [
    Gate('rrr_mqtt_parse_connect', HEADER, [
        ('rrr_mqtt_p_get_protocol_version()', NONZERO), ('strcmp()', ZERO),
        (CF + '&1', ZERO),
        [(CF + '&4', NONZERO), ((CF + '&24', ZERO), (CF + '&32', ZERO))],
        [V5, (CF + '&64', ZERO), (CF + '&128', NONZERO)],
        (CF + '&24', upto(2)), INBUF,
        [('strncpy(2)', upto(6)), ('llvm.memcpy.p0.p0.i64(2)', upto(6)), ('memcpy(2)', upto(6))],
    ], 'the header of a CONNECT packet is accepted', unless=RESUMED),
    Gate('rrr_mqtt_parse_connect', DONE, [
        [(CF + '&4', ZERO), ('rrr_mqtt_topic_validate_name()', ZERO)],
        (U8 + '(&rrr_mqtt_p_connect.client_identifier)', ZERO),
        [(CF + '&4', ZERO), (U8 + '(&rrr_mqtt_p_connect.will_topic)', ZERO)],
        [(CF + '&128', ZERO), (U8 + '(&rrr_mqtt_p_connect.username)', ZERO)],
        [(CF + '&64', ZERO), (U8 + '(&rrr_mqtt_p_connect.password)', ZERO)],
        END,
    ], 'a CONNECT packet is accepted', noinline=[U8, PROPS], unless=RESUMED),
    Gate('rrr_mqtt_parse_connack', HEADER, [
        (S + 'protocol_version', NONZERO),
        ('rrr_mqtt_p_connack.ack_flags&254', ZERO),
        [('rrr_mqtt_p_reason_get_v5()', NONZERO), ('rrr_mqtt_p_reason_get_v31()', NONZERO)],
        ('rrr_mqtt_p_reason.for_connack', NONZERO),
    ], 'a CONNACK packet is accepted', unless=RESUMED),
    Gate('rrr_mqtt_parse_publish', HEADER, [
        (S + 'protocol_version', NONZERO),
        (TF + '&6', upto(2)),
        [(TF + '&6', NONZERO), (TF + '&8', ZERO)],
        [(TF + '&6', ZERO), PID('publish')],
        ('rrr_mqtt_topic_validate_name()', ZERO),
        ('rrr_utf8_validate_and_iterate()', ZERO),
        [V3, ('__rrr_mqtt_parse_properties()', ZERO)],
    ], 'the header of a PUBLISH packet is accepted', unless=RESUMED, noinline=['__rrr_mqtt_parse_properties']),
    Gate('rrr_mqtt_parse_def_puback', HEADER, [
        (S + 'protocol_version', NONZERO), PID('def_puback'),
    ], 'a PUBACK, PUBREC, PUBREL or PUBCOMP packet is accepted', unless=RESUMED, noinline=['__rrr_mqtt_parse_properties']),
    Gate('rrr_mqtt_parse_def_puback', ('call', '__rrr_mqtt_parse_properties'), [
        ('rrr_mqtt_p_reason_get_v5()', NONZERO),
        [('rrr_mqtt_p_reason.for_puback_pubrec', NONZERO), ('rrr_mqtt_p_reason.for_pubrel_pubcomp', NONZERO)],
    ], 'properties following the reason of a PUBACK, PUBREC, PUBREL or PUBCOMP packet are read'),
    Gate(['rrr_mqtt_parse_subscribe', 'rrr_mqtt_parse_unsubscribe'], HEADER, [
        (S + 'protocol_version', NONZERO), PID('sub_usub'),
    ], 'the header of a SUBSCRIBE or UNSUBSCRIBE packet is accepted', unless=RESUMED, noinline=['__rrr_mqtt_parse_properties', '__rrr_mqtt_parse_utf8']),
    Gate(['rrr_mqtt_parse_subscribe', 'rrr_mqtt_parse_unsubscribe'], ('call', SUB), [
        (SUB + '(5)', upto(2)), (SUB + '(2)', upto(2)), 
        [V5, (SUB + '(2)', ZERO)], [V5, (SUB + '(3)', ZERO)], [V5, (SUB + '(4)', ZERO)],
        ('rrr_mqtt_topic_filter_validate_name()', ZERO),
        ('__rrr_mqtt_parse_utf8()', ZERO),
    ], 'a subscription is taken from a SUBSCRIBE or UNSUBSCRIBE packet', noinline=['__rrr_mqtt_parse_properties'], reset=['__rrr_mqtt_parse_utf8']),
    Gate('rrr_mqtt_parse_subscribe', ('call', SUB), [('?&192', ZERO)],
        'a subscription is taken from a SUBSCRIBE packet', reset=['__rrr_mqtt_parse_utf8'], noinline=['__rrr_mqtt_parse_properties']),
    Gate(['rrr_mqtt_parse_suback', 'rrr_mqtt_parse_unsuback'], HEADER, [
        (S + 'protocol_version', NONZERO), PID('suback_unsuback'),
    ], 'the header of a SUBACK or UNSUBACK packet is accepted', unless=RESUMED, noinline=['__rrr_mqtt_parse_properties']),
    Gate('rrr_mqtt_parse_disconnect', HEADER, [
        (S + 'protocol_version', NONZERO),
    ], 'a DISCONNECT packet is accepted', unless=RESUMED),
    Gate([f'rrr_mqtt_parse_{t}' for t in ('connack', 'subscribe', 'pingreq', 'pingresp', 'def_puback')], DONE, [END],
        'a packet with data after its end is accepted', noinline=[U8, PROPS], unless=RESUMED),
    Gate(['rrr_mqtt_parse_unsuback', 'rrr_mqtt_parse_suback'], DONE, [END],
        'a packet with data after its end is accepted', noinline=[U8, PROPS], unless=RESUMED),
    Gate(['rrr_mqtt_parse_subscribe', 'rrr_mqtt_parse_unsubscribe'], DONE, [(SUB + '()', ANY), END],
        'a SUBSCRIBE or UNSUBSCRIBE packet is accepted', noinline=[U8, PROPS], unless=RESUMED),
    Gate(['rrr_mqtt_parse_subscribe', 'rrr_mqtt_parse_unsubscribe'], ('call', SUB), [LE('?', 'strnlen()')],
        'a subscription with NUL characters is taken from a SUBSCRIBE or UNSUBSCRIBE packet', noinline=[U8, PROPS], reset=[U8]),
    Gate('rrr_mqtt_parse_disconnect', DONE, [
        (S + 'protocol_version', NONZERO), [V5, LE(S + 'target_size', S + 'variable_header_pos')],
        [END, LE(S + 'target_size', S + 'variable_header_pos', 1)],
    ], 'a DISCONNECT packet is accepted', noinline=[PROPS], unless=RESUMED),
    Gate(['rrr_mqtt_parse_pingreq', 'rrr_mqtt_parse_pingresp'], HEADER, [
        (S + 'protocol_version', NONZERO),
    ], 'a PINGREQ or PINGRESP packet is accepted', unless=RESUMED),
    Gate(U8, ('ret', ZERO), [('rrr_utf8_validate_and_iterate()', ZERO), LE('param.minimum_length', '*param.utf8_length'), ('__rrr_mqtt_parse_blob()', ZERO)],
        'a text field is accepted', noinline=['__rrr_mqtt_parse_blob']),
    Gate(['__rrr_mqtt_parse_blob', '__rrr_mqtt_parse_blob_nullsafe'], ('ret', ZERO), [LE('?', 'param.target_end'), LE('?', 'param.buffer_end')],
        'a field is read'),
    Gate('__rrr_mqtt_parse_utf8_validate_callback', ('ret', ZERO), [('param.character', only((1, 0xd7ff), (0xe000, 0xffffffff)))],
        'a character of a text field is accepted'),
    Gate('__rrr_mqtt_parse_variable_int', ('ret', ZERO), [('*param.bytes_parsed', only((1, 4)))], 'a variable length integer is accepted'),
    Gate(PROPS, ('call', 'rrr_mqtt_property_new'), [('rrr_mqtt_property_get_definition()', NONZERO)], 'a property is read'),
    Gate('rrr_mqtt_parse_auth', ('ret', ZERO), [('nothing', ZERO)], 'an AUTH packet is accepted', least=0),
    Gate('rrr_mqtt_packet_parse', ('storebits', ST, 1), [
        ('rrr_mqtt_p_header.type&240', NONZERO),
        [('rrr_mqtt_p_type_properties.has_reserved_flags', ZERO), ('eq(rrr_mqtt_p_header.type&15,rrr_mqtt_p_type_properties.flags)', only(1))],
        ('__rrr_mqtt_parse_variable_int()', ZERO), (S + 'buf_wpos', atleast(2)),
    ], 'the fixed header of a packet is accepted', noinline=['__rrr_mqtt_parse_variable_int']),
    Gate('rrr_mqtt_packet_parse', ('storebits', ST, 8), [
        (ST + '&4', NONZERO), ('rrr_mqtt_p_type_properties.parse()', ZERO),
    ], 'a packet is marked complete'),
    Gate('rrr_mqtt_packet_parse', ('call', 'rrr_mqtt_p_type_properties.parse'), [
        [(ST + '&2', NONZERO), (S + 'header_parse_attempts', supto(10))],
    ], 'another attempt is made at parsing a packet'),
]


def check(ctx): run(ctx, GATES)
