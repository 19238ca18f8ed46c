"""What the message database and its users acknowledge has been done, and only what was asked for is."""
from rules.gates import Gate, run, ZERO, NONZERO, only, upto, supto, atleast, LE, EQ

NEVER = [('nothing', ZERO)]
S = '__rrr_msgdb_server_'
MSGCB = S + 'read_msg_msg_callback'
OPS = [S + x for x in ('put', 'del', 'get', 'send_msg_ack', 'send_msg_nack', 'chdir_base', 'mkdir_chdir_levels', 'mkdir_chdir', 'chdir', 'del_raw', 'open_and_read_file', 'make_path', 'make_directories', 'tidy', 'idx', 'send_msg_pong')]
MT = 'rrr_msg_msg.type_and_class&15'
PLACE = [(S + 'chdir_base()', ZERO), (S + 'mkdir_chdir_levels()', ZERO)]
ITER = S + 'client_iteration_session_process'
ENTRY = ITER + '_file_callback'
FLAGS = 'rrr_msg.msg_type'
DELIVER = 'rrr_msgdb_client_await_callback_data.delivery_callback'
AWAIT = 'rrr_msgdb_client_await'
C = 'cacher_data.'

GATES = [
    # ---- requests
    Gate(MSGCB, ('call', S + 'send_msg_ack'), [[(S + 'put()', ZERO), (S + 'del()', ZERO), (S + 'get()', ZERO)], ('rrr_msg_msg.topic_length', NONZERO)], 'a request is acknowledged', noinline=OPS),
    Gate(MSGCB, ('call', S + 'put'), [('rrr_msg_msg.topic_length', NONZERO), (MT, only(4))], 'a message is stored', noinline=OPS),
    Gate(MSGCB, ('call', S + 'del'), [('rrr_msg_msg.topic_length', NONZERO), (MT, only(5))], 'a message is deleted', noinline=OPS),
    Gate(MSGCB, ('call', S + 'get'), [('rrr_msg_msg.topic_length', NONZERO), (MT, only(3))], 'a message is looked up', noinline=OPS),
    Gate(MSGCB, ('call', S + 'send_msg_ack'), NEVER, 'a lookup is answered by an acknowledgement', when=[(S + 'get()', ZERO)], noinline=OPS, least=0),
    Gate(MSGCB, ('ret', ZERO), [[(S + 'send_msg_ack()', ZERO), (S + 'send_msg_nack()', ZERO), (S + 'get()', ZERO)]], 'a request is done with', noinline=OPS),
    # ---- operations
    Gate(S + 'put', ('call', 'rrr_socket_open'), PLACE, 'a file of the message database is opened for writing', noinline=OPS),
    Gate(S + 'put', ('ret', ZERO), PLACE + [('rrr_socket_open()', ((1, 0x7fffffff),)), EQ('write()', 'rrr_msg_msg.msg_size')], 'storing a message succeeds', noinline=OPS),
    Gate(S + 'del', ('call', S + 'del_raw'), PLACE, 'a file of the message database is deleted', noinline=OPS),
    Gate(S + 'del', ('ret', ZERO), PLACE + [(S + 'del_raw()', ZERO)], 'deleting a message succeeds', noinline=OPS),
    Gate(S + 'del_raw', ('ret', ZERO), [[('unlink()', ZERO), ('rmdir()', ZERO), ('errno', only(2))]], 'deleting a file succeeds', noinline=OPS),
    Gate(S + 'get', ('call', S + 'open_and_read_file'), PLACE, 'a file of the message database is read', noinline=OPS),
    Gate(S + 'get', ('ret', ZERO), PLACE + [(S + 'open_and_read_file()', ZERO), ('rrr_msgdb_common_msg_send()', ZERO)], 'looking up a message succeeds', noinline=OPS),
    Gate(S + 'get', ('call', 'rrr_msgdb_common_msg_send'), [(S + 'open_and_read_file()', ZERO)], 'a stored message is sent', noinline=OPS),
    Gate(S + 'mkdir_chdir', ('ret', ZERO), [(S + 'chdir()', ZERO), [('mkdir()', ZERO), ('errno', only(17))]], 'a directory is entered', noinline=OPS),
    Gate(S + 'chdir', ('ret', ZERO), [[('chdir()', ZERO), ('strcmp()', ZERO)]], 'the directory is changed', noinline=[]),
    Gate(S + 'chdir', ('store', 'rrr_msgdb_server.prev_chdir', NONZERO), [('chdir()', ZERO)], 'the directory is remembered', least=0),
    Gate(S + 'mkdir_chdir_levels', ('ret', ZERO), [('byte', NONZERO)], 'the directories of a file are entered', noinline=OPS),
    Gate(S + 'mkdir_chdir_levels', ('ret', ZERO), NEVER, 'the directories of a file are entered', when=[(S + 'mkdir_chdir()', NONZERO)], noinline=OPS, least=0),
    # ---- iteration
    Gate(ENTRY, ('call', S + 'del_raw'), [[(S + 'open_and_read_file()', NONZERO), (('rrr_msg_msg_ttl_ok()', ZERO), ('rrr_msgdb_server_iteration_session.file_callback()', ZERO), ('rrr_msgdb_server_iteration_session.file_callback()[0]', NONZERO))], ('param.type', ((0, 3), (5, 255)))], 'a file is deleted when tidying', noinline=OPS),
    Gate(ENTRY, ('call', 'rrr_msgdb_server_iteration_session.file_callback'), [(S + 'open_and_read_file()', ZERO), ('rrr_msg_msg_ttl_ok()', ZERO)], 'a message is old enough', noinline=OPS),
    Gate(ITER, ('call', 'rrr_readdir_foreach'), [(S + 'chdir_base()', ZERO), (S + 'chdir()', ZERO)], 'a directory is iterated', noinline=OPS),
    Gate(ITER, ('call', 'rrr_msgdb_server_iteration_session.complete_callback'), NEVER, 'the end of the iteration is reported', noinline=OPS, when=[('rrr_readdir_foreach()', NONZERO)], least=0),
    Gate(S + 'iteration_begin', ('call', ('rrr_allocate_zero', 'rrr_allocate')), [('rrr_msgdb_server_client.iteration_session', ZERO)], 'an iteration is started', noinline=[S + 'idx_make_directory_index']),
    Gate(S + 'read_msg_ctrl_callback', ('call', S + 'tidy'), [(FLAGS + '&32768', NONZERO)], 'old messages are deleted', noinline=OPS),
    Gate(S + 'read_msg_ctrl_callback', ('call', S + 'idx'), [(FLAGS + '&16384', NONZERO)], 'messages are listed', noinline=OPS),
    Gate(S + 'read_msg_ctrl_callback', ('call', S + 'send_msg_pong'), [(FLAGS + '&4', NONZERO)], 'a ping is answered', noinline=OPS),
    Gate(S + 'restructure_callback', ('call', 'rename'), [(S + 'make_path()', ZERO), (S + 'make_directories()', ZERO), ('strcmp()', NONZERO), ('param.type', ((0, 3), (5, 255)))], 'a file is moved', noinline=OPS),
    # ---- client
    Gate('__rrr_msgdb_client_read_ack_callback', ('call', DELIVER, 1, NONZERO), [(FLAGS + '&16', NONZERO)], 'a positive acknowledgement is delivered'),
    Gate('__rrr_msgdb_client_read_ack_callback', ('call', DELIVER, 2, NONZERO), [(FLAGS + '&32', NONZERO)], 'a negative acknowledgement is delivered'),
    Gate('__rrr_msgdb_client_read_ack_callback', ('call', DELIVER), [[(FLAGS + '&16', NONZERO), (FLAGS + '&32', NONZERO)]], 'an acknowledgement is delivered'),
    Gate('__rrr_msgdb_client_read_msg_callback', ('call', DELIVER, 1, NONZERO), NEVER, 'a message is delivered as an acknowledgement', least=0),
    Gate('__rrr_msgdb_client_read_msg_callback', ('call', DELIVER, 2, NONZERO), NEVER, 'a message is delivered as an acknowledgement', least=0),
    Gate(AWAIT, ('ret', ZERO), [('rrr_socket_read_message_split_callbacks()', ZERO)], 'the response is complete'),
    # ---- users
    Gate('incrementer_update_id_msgdb_callback', ('ret', ZERO), [('rrr_msgdb_client_send()', ZERO), (AWAIT + '()', ZERO), ('incrementer_msgdb_delivery_callback_data.positive_ack', NONZERO)], 'an identifier is stored', noinline=['rrr_msgdb_client_send', AWAIT]),
    Gate('httpclient_msgdb_store_delivery_callback', ('ret', ZERO), [('param.negative_ack', ZERO)], 'storing is taken as successful'),
    Gate('cacher_get_from_msgdb_delivery_callback', ('call', 'rrr_message_broker_write_entry'), [('param.positive_ack', ZERO), ('param.negative_ack', ZERO), ('*param.msg', NONZERO)], 'a message from the database is handed on'),
    Gate('cacher_revive_delivery_callback', ('call', 'rrr_message_broker_write_entry'), [('param.positive_ack', ZERO), ('param.negative_ack', ZERO), ('*param.msg', NONZERO)], 'a message from the database is handed on'),
    Gate('cacher_get_from_memory_cache', ('call', 'rrr_message_broker_clone_and_write_entry'), [('rrr_msg_msg_ttl_ok()', NONZERO), ('rrr_msg_msg_topic_equals()', NONZERO)], 'a message from the memory cache is handed on'),
    Gate('cacher_process', ('call', 'cacher_store'), [[(C + 'message_ttl_us', ZERO), ('rrr_msg_msg_ttl_ok()', NONZERO)], ('rrr_msg_msg.topic_length', NONZERO), (C + 'do_no_update', ZERO), [(C + 'request_tag', ZERO), ('rrr_array_message_has_tag()', ZERO)]], 'a message is cached', noinline=['cacher_store']),
    Gate('cacher_process', ('call', 'cacher_store', 4, NONZERO), [(C + 'do_empty_is_delete', NONZERO)], 'a cached message is deleted', noinline=['cacher_store']),
    Gate('cacher_store', ('call', 'rrr_msgdb_helper_delete'), [('param.do_delete', NONZERO)], 'a message is deleted from the database'),
    Gate('cacher_store', ('call', 'rrr_msgdb_helper_send_to_msgdb'), [('param.do_delete', ZERO)], 'a message is stored in the database'),
    Gate('cacher_save_to_memory_cache', ('call', 'rrr_msg_holder_util_clone_no_locking_no_metadata'), [('param.do_delete', ZERO)], 'a message is stored in the memory cache'),
    Gate('httpclient_msgdb_poll_callback', ('call', 'rrr_msg_holder_new'), [('param.positive_ack', ZERO), ('param.negative_ack', ZERO), ('*param.msg', NONZERO)], 'a message from the database is handed on'),
    Gate('incrementer_process_subject', ('call', 'incrementer_update_id'), [('incrementer_get_id()', ZERO), ('rrr_msg_msg_topic_set()', ZERO), [('incrementer_data.id_prefix', ZERO), ('rrr_increment_verify_value_prefix()', ZERO), ('incrementer_get_id()[0]', ZERO)]], 'a new identifier is stored', noinline=['incrementer_update_id', 'incrementer_get_id']),
    Gate('incrementer_process_subject', ('call', 'rrr_msg_msg_topic_set'), [('rrr_string_builder_length()', upto(65535))], 'the topic of a message is set', noinline=['incrementer_update_id', 'incrementer_get_id', 'rrr_string_builder_length']),
    Gate('incrementer_process_subject', ('call', 'rrr_message_broker_incref_and_write_entry_unsafe'), [('incrementer_update_id()', ZERO), ('incrementer_get_id()', ZERO)], 'a message with a new identifier is handed on', noinline=['incrementer_update_id', 'incrementer_get_id']),
    Gate('rrr_map_item_replace_new_with_callback', ('call', '__rrr_map_item_add'), [('param.callback_confirm()', ZERO), ('__rrr_map_item_new_with_values()', ZERO)], 'a confirmed value is put into a map', noinline=['__rrr_map_item_new_with_values']),
]


def check(ctx): run(ctx, GATES)
