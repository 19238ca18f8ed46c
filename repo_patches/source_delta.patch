From c3a18955c5c11fddd04a88eecc96ac987115757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 001/103] fix: check allocations when copying the command line
 arguments

---
 src/lib/cmdlineparser/cmdline.c | 36 +++++++++++++++++++++++++--------
 src/lib/cmdlineparser/cmdline.h |  2 +-
 src/modules/p_perl5.c           |  8 +++++---
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/lib/cmdlineparser/cmdline.c b/src/lib/cmdlineparser/cmdline.c
index 16ba6ed..5281991 100644
--- a/src/lib/cmdlineparser/cmdline.c
+++ b/src/lib/cmdlineparser/cmdline.c
@@ -337,22 +337,42 @@ static int __cmd_pair_split_comma(struct cmd_arg_pair *pair) {
 	return ret;
 }
 
-void cmd_get_argv_copy (struct cmd_argv_copy **target, struct cmd_data *data) {
-	struct cmd_argv_copy *ret = rrr_allocate(sizeof(*ret));
+int cmd_get_argv_copy (struct cmd_argv_copy **target, struct cmd_data *data) {
+	struct cmd_argv_copy *ret = rrr_allocate_zero(sizeof(*ret));
 
 	*target = NULL;
 
-	ret->argv = rrr_allocate(sizeof(char*) * ((size_t) data->argc + 1));
+	if (ret == NULL) {
+		goto out_failed;
+	}
+
+	// We always have an extra pointer to hold NULL, hence the + 1
+	ret->argv = rrr_allocate_zero(sizeof(char*) * ((size_t) data->argc + 1));
+	if (ret->argv == NULL) {
+		goto out_free;
+	}
 	ret->argc = data->argc;
 
-	cmd_arg_count i = 0;
-	for (; i < data->argc; i++) {
-		ret->argv[i] = rrr_allocate(strlen(data->argv[i]) + 1);
-		strcpy(ret->argv[i], data->argv[i]);
+	for (cmd_arg_count i = 0; i < data->argc; i++) {
+		char *arg = rrr_strdup(data->argv[i]);
+		if (arg == NULL) {
+			goto out_destroy;
+		}
+		ret->argv[i] = arg;
 	}
-	ret->argv[i] = NULL;
 
 	*target = ret;
+
+	return 0;
+
+	out_destroy:
+		cmd_destroy_argv_copy(ret);
+		goto out_failed;
+	out_free:
+		rrr_free(ret);
+	out_failed:
+		RRR_MSG_0("Could not allocate memory in %s\n", __func__);
+		return 1;
 }
 
 void cmd_destroy_argv_copy (struct cmd_argv_copy *target) {
diff --git a/src/lib/cmdlineparser/cmdline.h b/src/lib/cmdlineparser/cmdline.h
index 86582d6..5f87b2d 100644
--- a/src/lib/cmdlineparser/cmdline.h
+++ b/src/lib/cmdlineparser/cmdline.h
@@ -72,7 +72,7 @@ void cmd_init (
 		int argc,
 		const char *argv[]
 );
-void cmd_get_argv_copy (
+int cmd_get_argv_copy (
 		struct cmd_argv_copy **target,
 		struct cmd_data *data
 );
diff --git a/src/modules/p_perl5.c b/src/modules/p_perl5.c
index 4e4e8e7..2504eb7 100644
--- a/src/modules/p_perl5.c
+++ b/src/modules/p_perl5.c
@@ -148,7 +148,9 @@ static int preload_perl5 (struct rrr_thread *thread) {
 	int ret = 0;
 
 	struct cmd_argv_copy *cmdline;
-	cmd_get_argv_copy(&cmdline, thread_data->init_data.cmd_data);
+	if ((ret = cmd_get_argv_copy(&cmdline, thread_data->init_data.cmd_data)) != 0) {
+		goto out;
+	}
 
 	if (cmdline->argc > INT_MAX) {
 		RRR_MSG_0("argc overflow (%llu>%i) in perl5 instance %s\n",
@@ -165,7 +167,7 @@ static int preload_perl5 (struct rrr_thread *thread) {
 
 	out_destroy_cmdline:
 	cmd_destroy_argv_copy(cmdline);
-
+	out:
 	return ret;
 }
 
@@ -176,7 +178,7 @@ static int perl5_data_init(struct perl5_data *data, struct rrr_instance_runtime_
 
 	data->thread_data = thread_data;
 
-	cmd_get_argv_copy(&data->cmdline, thread_data->init_data.cmd_data);
+	ret = cmd_get_argv_copy(&data->cmdline, thread_data->init_data.cmd_data);
 
 	return ret;
 }
-- 
2.43.0


From 5142123edb499cc66de749a4ee619b8222ceb800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 002/103] fix: check allocations of exit cleanup methods and
 signal handlers

---
 src/lib/common.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/common.c b/src/lib/common.c
index 3266360..e10d418 100644
--- a/src/lib/common.c
+++ b/src/lib/common.c
@@ -44,6 +44,9 @@ void rrr_exit_cleanup_method_push (
 		void *arg
 ) {
 	struct rrr_exit_cleanup_method *new_method = rrr_allocate(sizeof(*new_method));
+	if (new_method == NULL) {
+		RRR_BUG("Could not allocate memory in %s\n", __func__);
+	}
 
 	pthread_mutex_lock(&exit_cleanup_lock);
 	new_method->method = method;
@@ -97,6 +100,9 @@ struct rrr_signal_handler *rrr_signal_handler_push(
 		void *private_arg
 ) {
 	struct rrr_signal_handler *h = rrr_allocate(sizeof(*h));
+	if (h == NULL) {
+		RRR_BUG("Could not allocate memory in %s\n", __func__);
+	}
 	h->handler = handler;
 	h->private_arg = private_arg;
 
-- 
2.43.0


From a838ea1dbc1445caf5572cced960ee58cc2e2172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 003/103] fix: check allocation of module data when loading an
 instance

---
 src/lib/instances.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/instances.c b/src/lib/instances.c
index a358fe6..19351c0 100644
--- a/src/lib/instances.c
+++ b/src/lib/instances.c
@@ -311,6 +311,13 @@ static struct rrr_instance *__rrr_instance_load_module_new_and_save (
 	}
 
 	struct rrr_instance_module_data *module_data = rrr_allocate(sizeof(*module_data));
+	if (module_data == NULL) {
+		RRR_MSG_0("Could not allocate memory for module data of instance '%s' in %s\n",
+				instance_config->name_debug, __func__);
+		rrr_module_unload(module_init_data.dl_ptr, module_init_data.unload);
+		ret = NULL;
+		goto out;
+	}
 	memset(module_data, '\0', sizeof(*module_data));
 
 	module_init_data.init(module_data);
-- 
2.43.0


From 0bc015be380040ef4633bbd31c8bfc5c536247ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 004/103] fix: check allocation when dumping an MQTT property

---
 src/lib/mqtt/mqtt_property.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_property.c b/src/lib/mqtt/mqtt_property.c
index 0828938..32feca7 100644
--- a/src/lib/mqtt/mqtt_property.c
+++ b/src/lib/mqtt/mqtt_property.c
@@ -496,7 +496,10 @@ static void __rrr_mqtt_property_dump (
 	printf("%s: ", property->definition->name);
 	switch (property->internal_data_type) {
 		case RRR_MQTT_PROPERTY_DATA_TYPE_INTERNAL_BLOB:
-			tmp = rrr_allocate(property->length + 1);
+			if ((tmp = rrr_allocate(property->length + 1)) == NULL) {
+				printf("(could not allocate memory)");
+				break;
+			}
 			memcpy(tmp, property->data, property->length);
 			tmp[property->length] = '\0';
 			printf("%s", tmp);
-- 
2.43.0


From 5b46b59dc912c970f90675558e33e9552fcee468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 005/103] fix: check allocation of the topic filter of an MQTT
 subscription

---
 src/lib/mqtt/mqtt_subscription.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_subscription.c b/src/lib/mqtt/mqtt_subscription.c
index 10fc0bf..bc4460e 100644
--- a/src/lib/mqtt/mqtt_subscription.c
+++ b/src/lib/mqtt/mqtt_subscription.c
@@ -85,7 +85,7 @@ int rrr_mqtt_subscription_new (
 
 	else {
 		sub->topic_filter = rrr_allocate(strlen(topic_filter) + 1);
-		if (sub == NULL) {
+		if (sub->topic_filter == NULL) {
 			RRR_MSG_0("Could not allocate memory for topic filter in %s\n", __func__);
 			ret = 1;
 			goto out_free_subscription;
-- 
2.43.0


From b31d64e4f388afc6d0367c954a834683d80f1af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 006/103] fix: check allocation of the python3 import string

---
 src/lib/python3/python3_cmodule.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/python3/python3_cmodule.c b/src/lib/python3/python3_cmodule.c
index 55fede3..7bf3baf 100644
--- a/src/lib/python3/python3_cmodule.c
+++ b/src/lib/python3/python3_cmodule.c
@@ -193,6 +193,11 @@ static int __rrr_py_get_rrr_objects (
 	;
 
 	rrr_py_import_final = rrr_allocate(strlen(rrr_py_import_template) + strlen(extra_module_paths_concat) + 1);
+	if (rrr_py_import_final == NULL) {
+		RRR_MSG_0("Could not allocate memory in %s\n", __func__);
+		ret = 1;
+		goto out;
+	}
 	sprintf(rrr_py_import_final, rrr_py_import_template, extra_module_paths_concat);
 
 	res = PyRun_String(rrr_py_import_final, Py_file_input, dictionary, dictionary);
-- 
2.43.0


From 6692a62835fa665ed884ba409bebe52e503f3a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 007/103] fix: check allocation of the name of a statistics
 tree branch

---
 src/lib/stats/stats_tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/stats/stats_tree.c b/src/lib/stats/stats_tree.c
index 70b287e..0420f01 100644
--- a/src/lib/stats/stats_tree.c
+++ b/src/lib/stats/stats_tree.c
@@ -49,7 +49,7 @@ static int __rrr_stats_tree_branch_new (
 	memset(result, '\0', sizeof(*result));
 
 	result->name = rrr_strdup(name);
-	if (name == NULL) {
+	if (result->name == NULL) {
 		RRR_MSG_0("Could not allocate memory in %s B\n", __func__);
 		ret = 1;
 		goto out_free_result;
-- 
2.43.0


From 96b500ca23deb8b8f89bed224073d1be76f0840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 008/103] fix: check duplication of outbound messages in
 udpstream ASD

---
 src/lib/udpstream/udpstream_asd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/udpstream/udpstream_asd.c b/src/lib/udpstream/udpstream_asd.c
index 483fd0e..24645f1 100644
--- a/src/lib/udpstream/udpstream_asd.c
+++ b/src/lib/udpstream/udpstream_asd.c
@@ -699,6 +699,10 @@ static int __rrr_udpstream_asd_send_message (
 	struct rrr_msg_msg *message = node->message->message;
 	struct rrr_msg_msg *message_network = NULL;
 	message_network = rrr_msg_msg_duplicate(message);
+	if (message_network == NULL) {
+		RRR_MSG_0("Could not duplicate message in %s\n", __func__);
+		return RRR_UDPSTREAM_ASD_HARD_ERR;
+	}
 	const rrr_length message_network_size = MSG_TOTAL_SIZE(message_network);
 
 	rrr_msg_msg_prepare_for_network((struct rrr_msg_msg *) message_network);
-- 
2.43.0


From 321f3525ed1b768609defe9e41c6c7e64ac40a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 009/103] fix: check allocation of the column plan name in
 mysql

---
 src/modules/p_mysql.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/p_mysql.c b/src/modules/p_mysql.c
index 032cf11..b8aa68a 100644
--- a/src/modules/p_mysql.c
+++ b/src/modules/p_mysql.c
@@ -773,6 +773,11 @@ static int mysql_parse_column_plan (
 	int yesno = 0;
 
 	char *mysql_colplan = rrr_strdup("array");
+	if (mysql_colplan == NULL) {
+		RRR_MSG_0("Could not allocate memory in %s\n", __func__);
+		ret = 1;
+		goto out;
+	}
 
 	// BLOB WRITE COLUMNS
 	ret = rrr_instance_config_parse_comma_separated_to_map(&data->blob_write_columns, config, "mysql_blob_write_columns");
-- 
2.43.0


From 0f07ffe35732ba3f96ea47a5fe0f008c84377652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:08 +0000
Subject: [PATCH 010/103] fix: check allocation of CONNECT and PINGREQ packets
 in MQTT client

---
 src/lib/mqtt/mqtt_client.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/mqtt/mqtt_client.c b/src/lib/mqtt/mqtt_client.c
index b682446..7a5e020 100644
--- a/src/lib/mqtt/mqtt_client.c
+++ b/src/lib/mqtt/mqtt_client.c
@@ -92,6 +92,11 @@ static int __rrr_mqtt_client_exceeded_keep_alive_callback (struct rrr_net_transp
 	}
 
 	pingreq = (struct rrr_mqtt_p_pingreq *) rrr_mqtt_p_allocate(RRR_MQTT_P_TYPE_PINGREQ, connection->protocol_version);
+	if (pingreq == NULL) {
+		RRR_MSG_0("Could not allocate PINGREQ packet in %s\n", __func__);
+		ret = RRR_MQTT_INTERNAL_ERROR;
+		goto out;
+	}
 
 	if (rrr_mqtt_conn_iterator_ctx_send_packet_urgent(handle, (struct rrr_mqtt_p *) pingreq) != 0) {
 		RRR_MSG_0("Could not send PINGREQ packet in %s\n", __func__);
@@ -481,6 +486,11 @@ int rrr_mqtt_client_connect (
 	}
 
 	connect = (struct rrr_mqtt_p_connect *) rrr_mqtt_p_allocate(RRR_MQTT_P_TYPE_CONNECT, protocol_version);
+	if (connect == NULL) {
+		RRR_MSG_0("Could not allocate CONNECT packet in %s\n", __func__);
+		ret = 1;
+		goto out;
+	}
 
 	if (data->mqtt_data.client_name != NULL && *(data->mqtt_data.client_name) != '\0') {
 		if ((connect->client_identifier = rrr_strdup(data->mqtt_data.client_name)) == NULL) {
-- 
2.43.0


From a5f8d994465f1011083c7f18f067a369a41c64ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:08 +0000
Subject: [PATCH 011/103] fix: do not return destroyed packet when allocation
 of subscriptions fails

---
 src/lib/mqtt/mqtt_packet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/mqtt/mqtt_packet.c b/src/lib/mqtt/mqtt_packet.c
index 8cab14d..91527f9 100644
--- a/src/lib/mqtt/mqtt_packet.c
+++ b/src/lib/mqtt/mqtt_packet.c
@@ -140,6 +140,7 @@ static struct rrr_mqtt_p *__rrr_mqtt_p_allocate_sub_usub(RRR_MQTT_P_TYPE_ALLOCAT
 
 	out_destroy_properties:
 	RRR_MQTT_P_DECREF_IF_NOT_NULL(sub_usub);
+	result = NULL;
 
 	out:
 	return result;
-- 
2.43.0


From dc3c0461f74c93f7ae54b36d4c89c055b140b7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:08 +0000
Subject: [PATCH 012/103] fix: hold the fork handler lock after recovering it
 from a dead owner

---
 src/lib/fork.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/fork.c b/src/lib/fork.c
index f7a1908..c1736af 100644
--- a/src/lib/fork.c
+++ b/src/lib/fork.c
@@ -61,7 +61,15 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 static int __rrr_fork_handler_lock (
 		struct rrr_fork_handler *handler
 ) {
-	return rrr_posix_mutex_robust_lock (&handler->lock);
+	int ret = 0;
+
+	if ((ret = rrr_posix_mutex_robust_lock (&handler->lock)) != 0) {
+		// Lock was made consistent and then released, caller expects to hold it
+		while (rrr_posix_mutex_robust_lock (&handler->lock) != 0) {
+		}
+	}
+
+	return ret;
 }
 
 static void __rrr_fork_handler_unlock (
@@ -463,7 +471,6 @@ void rrr_fork_unregister_exit_handler (
 	}
 
 	if (__rrr_fork_handler_lock(handler) != 0) {
-		__rrr_fork_handler_unlock(handler);
 		RRR_MSG_0("Warning: Lock was inconsistent while unregistering exit handler in parent %i, a fork might have died while holding it.\n", getpid());
 	}
 
-- 
2.43.0


From f0af68e720df041a730fdae58e6f8f93f25c9f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:08 +0000
Subject: [PATCH 013/103] fix: report failed mutex initialization in fork
 handler

---
 src/lib/fork.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/fork.c b/src/lib/fork.c
index c1736af..7c7cbae 100644
--- a/src/lib/fork.c
+++ b/src/lib/fork.c
@@ -100,6 +100,7 @@ int rrr_fork_handler_new (
 
 	if (rrr_posix_mutex_init(&handler->lock, RRR_POSIX_MUTEX_IS_PSHARED|RRR_POSIX_MUTEX_IS_ROBUST) != 0) {
 		RRR_MSG_0("Could not initialize mutex in rrr_fork_handler_init\n");
+		ret = 1;
 		goto out_free;
 	}
 
-- 
2.43.0


From ff3bb1759acc3661c83903d5e5101b582404228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:08 +0000
Subject: [PATCH 014/103] fix: release robust mutexes exactly once when the
 owner has died

---
 src/lib/util/posix.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/util/posix.c b/src/lib/util/posix.c
index cc9d202..5ffa7c6 100644
--- a/src/lib/util/posix.c
+++ b/src/lib/util/posix.c
@@ -303,6 +303,7 @@ int rrr_posix_mutex_robust_trylock (pthread_mutex_t *mutex) {
 	if ((ret = pthread_mutex_trylock (mutex)) != 0) {
 		if (ret == EOWNERDEAD) {
 			__rrr_posix_mutex_robust_consistent(mutex);
+			pthread_mutex_unlock(mutex);
 			ret = RRR_POSIX_MUTEX_ROBUST_ERROR;
 		}
 		else if (ret == EBUSY) {
@@ -319,7 +320,8 @@ int rrr_posix_mutex_robust_trylock (pthread_mutex_t *mutex) {
 
 void rrr_posix_mutex_robust_destroy (pthread_mutex_t *mutex) {
 	// Ensure lock is consisten before destroy
-	rrr_posix_mutex_robust_lock(mutex);
-	pthread_mutex_unlock(mutex);
+	if (rrr_posix_mutex_robust_lock(mutex) == RRR_POSIX_MUTEX_ROBUST_OK) {
+		pthread_mutex_unlock(mutex);
+	}
 	pthread_mutex_destroy(mutex);
 }
-- 
2.43.0


From c1d825e66ac08e016aab724206a791529660b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:08 +0000
Subject: [PATCH 015/103] fix: do not release the log socket lock on re-entry
 when it was not obtained

---
 src/lib/log.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lib/log.c b/src/lib/log.c
index da4b223..3fc7c7c 100644
--- a/src/lib/log.c
+++ b/src/lib/log.c
@@ -1219,8 +1219,6 @@ static void __rrr_log_socket_intercept_send (
 
 		rrr_free(msg_log);
 
-		pthread_mutex_unlock(&rrr_log_socket_lock);
-
 		return;
 	}
 
-- 
2.43.0


From 89e02e84fa3e40f4f440e690e035335b12ff14e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:16 +0000
Subject: [PATCH 016/103] fix: unlock new entry in message broker when it
 cannot be prepared

---
 src/lib/message_broker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/message_broker.c b/src/lib/message_broker.c
index 4943116..f8e35dc 100644
--- a/src/lib/message_broker.c
+++ b/src/lib/message_broker.c
@@ -797,6 +797,8 @@ static int __rrr_message_broker_write_entry_callback_intermediate (
 			entry,
 			nexthops
 	)) != 0) {
+		// Callback, which otherwise unlocks the entry, will not be called
+		rrr_msg_holder_unlock(entry);
 		return ret;
 	}
 
-- 
2.43.0


From 19c37d8cf1255fa5ef472f0b49c4b41fe1c177a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:16 +0000
Subject: [PATCH 017/103] fix: do not unlock averager input entry twice when
 processing fails

---
 src/modules/p_averager.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/modules/p_averager.c b/src/modules/p_averager.c
index 582f2f6..1cf9839 100644
--- a/src/modules/p_averager.c
+++ b/src/modules/p_averager.c
@@ -370,7 +370,6 @@ static int averager_calculate_average(struct averager_data *data) {
 	RRR_LL_ITERATE_BEGIN(&data->input_list, struct rrr_msg_holder);
 		rrr_msg_holder_lock(node);
 		if ((ret = averager_process_message(data, &calculation, node)) != 0) {
-			rrr_msg_holder_unlock(node);
 			RRR_LL_ITERATE_LAST();
 		}
 		RRR_LL_ITERATE_SET_DESTROY();
-- 
2.43.0


From 11b85e9eccd60f3843448ef50a6cfb0f48cef365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:16 +0000
Subject: [PATCH 018/103] fix: do not release a NULL entry in ip module when
 allocation fails

---
 src/modules/p_ip.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/p_ip.c b/src/modules/p_ip.c
index b003970..e68e496 100644
--- a/src/modules/p_ip.c
+++ b/src/modules/p_ip.c
@@ -445,7 +445,9 @@ static int ip_read_receive_message (
 	data->messages_count_read++;
 
 	out:
-	rrr_msg_holder_decref_while_locked_and_unlock(new_entry);
+	if (new_entry != NULL) {
+		rrr_msg_holder_decref_while_locked_and_unlock(new_entry);
+	}
 	if (message != NULL) {
 		rrr_free(message);
 	}
-- 
2.43.0


From 151ad6133a4ef5dbe13db781aba6107989c474ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:39 +0000
Subject: [PATCH 019/103] fix: unlock entry in httpclient poll callback upon
 errors

---
 src/modules/p_httpclient.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/modules/p_httpclient.c b/src/modules/p_httpclient.c
index c969cde..57bef48 100644
--- a/src/modules/p_httpclient.c
+++ b/src/modules/p_httpclient.c
@@ -1890,6 +1890,7 @@ static int httpclient_poll_callback(RRR_MODULE_POLL_CALLBACK_SIGNATURE) {
 	struct httpclient_data *data = thread_data->private_data;
 	const struct rrr_msg_msg *message = entry->message;
 
+	int ret = 0;
 	int ret_tmp = 0;
 
 	// We need to sneak-peak into the message to figure out if 
@@ -1900,12 +1901,14 @@ static int httpclient_poll_callback(RRR_MODULE_POLL_CALLBACK_SIGNATURE) {
 			// Invalid message
 			goto out_ignore;
 		}
-		return 1;
+		ret = 1;
+		goto out_ignore;
 	}
 
 	if (method == RRR_HTTP_METHOD_PUT) {
 		if (httpclient_msgdb_notify_send(data, entry) != 0) {
-			return 1;
+			ret = 1;
+			goto out_ignore;
 		}
 	}
 
@@ -1951,7 +1954,7 @@ static int httpclient_poll_callback(RRR_MODULE_POLL_CALLBACK_SIGNATURE) {
 
 	out_ignore:
 	rrr_msg_holder_unlock(entry);
-	return 0;
+	return ret;
 }
 
 static int httpclient_parse_config_response_codes_summary_callback (
-- 
2.43.0


From 1b97aeb3a84cdd9fed648df1d1fa9c22f7fafeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:49 +0000
Subject: [PATCH 020/103] fix: do not take the fifo write lock again when
 clearing upon entry count overflow

---
 src/lib/fifo_protected.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lib/fifo_protected.c b/src/lib/fifo_protected.c
index f8c9c56..60e6ad3 100644
--- a/src/lib/fifo_protected.c
+++ b/src/lib/fifo_protected.c
@@ -227,12 +227,9 @@ static int __rrr_fifo_write_queue_merge_nolock (
 /*
  * Remove all entries from a buffer
  */
-static void __rrr_fifo_protected_clear (
+static void __rrr_fifo_protected_clear_nolock (
 		struct rrr_fifo_protected *buffer
 ) {
-	__rrr_fifo_protected_write_lock(buffer);
-	pthread_cleanup_push(__rrr_fifo_protected_unlock_void, buffer);
-
 	if (__rrr_fifo_write_queue_merge_nolock(buffer) != 0) {
 		RRR_MSG_0("Warning: Buffer entry count overflow during clear operation\n");
 	}
@@ -254,6 +251,15 @@ static void __rrr_fifo_protected_clear (
 	buffer->gptr_first = NULL;
 	buffer->gptr_last = NULL;
 	buffer->entry_count = 0;
+}
+
+static void __rrr_fifo_protected_clear (
+		struct rrr_fifo_protected *buffer
+) {
+	__rrr_fifo_protected_write_lock(buffer);
+	pthread_cleanup_push(__rrr_fifo_protected_unlock_void, buffer);
+
+	__rrr_fifo_protected_clear_nolock(buffer);
 
 	pthread_cleanup_pop(1);
 }
@@ -866,7 +872,7 @@ int rrr_fifo_protected_write (
 		pthread_mutex_unlock(&buffer->ratelimit_mutex);
 
 		if (ret != 0) {
-			__rrr_fifo_protected_clear(buffer);
+			__rrr_fifo_protected_clear_nolock(buffer);
 			goto loop_out_no_drop;
 		}
 
-- 
2.43.0


From 45b4a4318626bc8323d960c675b9f0a7c746910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:49 +0000
Subject: [PATCH 021/103] fix: report callback errors and do not destroy an
 entry twice in delayed fifo write

---
 src/lib/fifo_protected.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/fifo_protected.c b/src/lib/fifo_protected.c
index 60e6ad3..0bc3b1f 100644
--- a/src/lib/fifo_protected.c
+++ b/src/lib/fifo_protected.c
@@ -939,6 +939,7 @@ int rrr_fifo_protected_write_delayed (
 				if ((ret &= ~RRR_FIFO_PROTECTED_GLOBAL_ERR) != 0) {
 					RRR_BUG("BUG: Callback returned GLOBAL_ERR along with return values %i in rrr_fifo_protected_delayed_write\n", ret);
 				}
+				ret = RRR_FIFO_PROTECTED_GLOBAL_ERR;
 				goto out;
 			}
 			else if ((ret & RRR_FIFO_PROTECTED_WRITE_DROP) == RRR_FIFO_PROTECTED_WRITE_DROP) {
@@ -980,6 +981,7 @@ int rrr_fifo_protected_write_delayed (
 				pthread_mutex_unlock (&buffer->write_queue_mutex);
 				__rrr_fifo_protected_clear(buffer);
 				pthread_mutex_lock (&buffer->write_queue_mutex);
+				entry = NULL; // Destroyed along with the other entries
 				goto out;
 			}
 
-- 
2.43.0


From 06b737829165de57f1585a788cdb315592d30b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 022/103] fix: hold the socket lock when looking up filenames
 of sockets

---
 src/lib/socket/rrr_socket.c | 49 +++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/lib/socket/rrr_socket.c b/src/lib/socket/rrr_socket.c
index 34a26d8..a5bdd8b 100644
--- a/src/lib/socket/rrr_socket.c
+++ b/src/lib/socket/rrr_socket.c
@@ -232,20 +232,30 @@ int __rrr_socket_holder_new (
 void rrr_socket_unlink (
 		int fd
 ) {
+	int found = 0;
+	int unlinked = 0;
+
+	pthread_mutex_lock(&socket_lock);
 	RRR_LL_ITERATE_BEGIN(&socket_list,struct rrr_socket_holder);
 		if (node->options.fd == fd) {
 			char *filename = node->filename_unlink != NULL ? node->filename_unlink : node->filename_no_unlink;
-			if (filename == NULL) {
-				RRR_MSG_0("Warning: Socket unlink of fd %i called but it had no filename registered with it.\n", fd);
-				return;
+			if (filename != NULL) {
+				RRR_DBG_7("socket pid %i fd %i filename %s direct unlink\n", getpid(), fd, filename);
+				unlink(filename);
+				unlinked = 1;
 			}
-			RRR_DBG_7("socket pid %i fd %i filename %s direct unlink\n", getpid(), fd, filename);
-			unlink(filename);
-			return;
+			found = 1;
+			RRR_LL_ITERATE_BREAK();
 		}
 	RRR_LL_ITERATE_END();
+	pthread_mutex_unlock(&socket_lock);
 
-	RRR_MSG_0("Warning: Socket unlink of fd %i called but it was not registered.\n", fd);
+	if (!found) {
+		RRR_MSG_0("Warning: Socket unlink of fd %i called but it was not registered.\n", fd);
+	}
+	else if (!unlinked) {
+		RRR_MSG_0("Warning: Socket unlink of fd %i called but it had no filename registered with it.\n", fd);
+	}
 }
 
 int rrr_socket_with_filename_do (
@@ -253,18 +263,31 @@ int rrr_socket_with_filename_do (
 		int (*callback)(const char *filename, void *arg),
 		void *callback_arg
 ) {
+	int ret = 0;
+
+	int found = 0;
+	char *filename = NULL;
+
+	pthread_mutex_lock(&socket_lock);
 	RRR_LL_ITERATE_BEGIN(&socket_list, struct rrr_socket_holder);
 		if (node->options.fd == fd) {
-			if (node->filename_unlink) {
-				return callback(node->filename_unlink, callback_arg);
-			}
-			else {
-				return callback(node->filename_no_unlink, callback_arg);
+			const char *filename_orig = node->filename_unlink ? node->filename_unlink : node->filename_no_unlink;
+			if (filename_orig != NULL && (filename = rrr_strdup(filename_orig)) == NULL) {
+				RRR_MSG_0("Failed to allocate filename in %s\n", __func__);
+				ret = 1;
 			}
+			found = 1;
+			RRR_LL_ITERATE_BREAK();
 		}
 	RRR_LL_ITERATE_END();
+	pthread_mutex_unlock(&socket_lock);
+
+	if (ret == 0) {
+		ret = found ? callback(filename, callback_arg) : 1;
+	}
 
-	return 1;
+	RRR_FREE_IF_NOT_NULL(filename);
+	return ret;
 }
 		
 int rrr_socket_get_filename_from_fd (
-- 
2.43.0


From c363df07fe5b1f1e7f64b858cff70bd550a612d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:26 +0000
Subject: [PATCH 023/103] fix: report allocation failure when duplicating path
 in rrr_readdir

---
 src/lib/util/rrr_readdir.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/util/rrr_readdir.c b/src/lib/util/rrr_readdir.c
index 86fa031..be69eae 100644
--- a/src/lib/util/rrr_readdir.c
+++ b/src/lib/util/rrr_readdir.c
@@ -299,11 +299,13 @@ static int __rrr_readdir_foreach_recursive_descend_callback (
 
 	if ((new_entry->orig_path = rrr_strdup(orig_path)) == NULL) {
 		RRR_MSG_0("Failed to allocate memory for path in %s\n", __func__);
+		ret = 1;
 		goto out_free;
 	}
 
 	if ((new_entry->resolved_path = rrr_strdup(resolved_path)) == NULL) {
 		RRR_MSG_0("Failed to allocate memory for resolved path in %s\n", __func__);
+		ret = 1;
 		goto out_free;
 	}
 
-- 
2.43.0


From 8b02034e763732b5ed5f0c7ce29c26347b2711a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:26 +0000
Subject: [PATCH 024/103] fix: report allocation failure in rrr_array_clone

---
 src/lib/array.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/array.c b/src/lib/array.c
index 3fe66c9..b5c8fdc 100644
--- a/src/lib/array.c
+++ b/src/lib/array.c
@@ -112,6 +112,7 @@ int rrr_array_clone (
 
 	if ((array = rrr_allocate_zero(sizeof(*array))) == NULL) {
 		RRR_MSG_0("Could not allocate memory in rrr_array_clone\n");
+		ret = 1;
 		goto out;
 	}
 
-- 
2.43.0


From 7212aba69260e2a03de1b6da26464ad687dd14c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:26 +0000
Subject: [PATCH 025/103] fix: report allocation failure when creating HTTP2
 session

---
 src/lib/http2/http2.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/http2/http2.c b/src/lib/http2/http2.c
index ae6a3ee..07d3440 100644
--- a/src/lib/http2/http2.c
+++ b/src/lib/http2/http2.c
@@ -603,6 +603,7 @@ int rrr_http2_session_new_or_reset (
 	if (result == NULL) {
 		if ((result = rrr_allocate(sizeof(*result))) == NULL) {
 			RRR_MSG_0("Could not allocate memory in rrr_http2_session_new_or_reset\n");
+			ret = 1;
 			goto out;
 		}
 		memset(result, '\0', sizeof(*result));
-- 
2.43.0


From 20c66e52890a3a2fce5387e3a35154e7bf23d02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:26 +0000
Subject: [PATCH 026/103] fix: report failure after connecting in
 rrr_ip_network_connect_tcp_ipv4_or_ipv6

---
 src/lib/ip/ip.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/ip/ip.c b/src/lib/ip/ip.c
index 98d46f2..8c8ee27 100644
--- a/src/lib/ip/ip.c
+++ b/src/lib/ip/ip.c
@@ -402,6 +402,7 @@ int rrr_ip_network_connect_tcp_ipv4_or_ipv6 (
 	struct rrr_ip_accept_data *accept_result = rrr_allocate(sizeof(*accept_result));
 	if (accept_result == NULL) {
 		RRR_MSG_0("Could not allocate memory in ip_network_connect_tcp_ipv4_or_ipv6\n");
+		ret = 1;
 		goto out_error_close_socket;
 	}
 
@@ -412,6 +413,7 @@ int rrr_ip_network_connect_tcp_ipv4_or_ipv6 (
 	accept_result->len = sizeof(accept_result->addr);
 	if (getsockname(fd, (struct sockaddr *) &accept_result->addr, &accept_result->len) != 0) {
 		RRR_MSG_0("getsockname failed: %s\n", rrr_strerror(errno));
+		ret = 1;
 		goto out_error_free_accept;
 	}
 	accept_result->ip_data.is_ipv6 = accept_result->addr.ss_family == AF_INET6;
-- 
2.43.0


From 8ea36e5c345cb99a7ee256af61ca1bdacea65049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:51 +0000
Subject: [PATCH 027/103] fix: check allocation of creator string in socket
 holder

---
 src/lib/socket/rrr_socket.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/socket/rrr_socket.c b/src/lib/socket/rrr_socket.c
index a5bdd8b..a2c66ae 100644
--- a/src/lib/socket/rrr_socket.c
+++ b/src/lib/socket/rrr_socket.c
@@ -199,7 +199,11 @@ int __rrr_socket_holder_new (
 		RRR_BUG("Creator was NULL in __rrr_socket_holder_new\n");
 	}
 
-	result->creator = rrr_strdup(creator);
+	if ((result->creator = rrr_strdup(creator)) == NULL) {
+		RRR_MSG_0("Could not allocate memory for creator in __rrr_socket_holder_new\n");
+		ret = 1;
+		goto out;
+	}
 
 	if (filename != NULL) {
 		char *filename_tmp = rrr_strdup(filename);
@@ -225,7 +229,10 @@ int __rrr_socket_holder_new (
 	result = NULL;
 
 	out:
-	RRR_FREE_IF_NOT_NULL(result);
+	if (result != NULL) {
+		RRR_FREE_IF_NOT_NULL(result->creator);
+		rrr_free(result);
+	}
 	return ret;
 }
 
-- 
2.43.0


From 94698a4af7d6c32f0155d1acb1f733af7ea6bc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:51 +0000
Subject: [PATCH 028/103] fix: report failure to duplicate message in stats
 engine

---
 src/lib/stats/stats_engine.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/stats/stats_engine.c b/src/lib/stats/stats_engine.c
index 36b2939..618099d 100644
--- a/src/lib/stats/stats_engine.c
+++ b/src/lib/stats/stats_engine.c
@@ -957,12 +957,13 @@ static int __rrr_stats_engine_push_rrr_message (
 	uint16_t write_amount = 0;
 
 	if ((ret = rrr_msg_stats_duplicate(&preface_copy, message_preface)) != 0) {
-		RRR_MSG_0("Could not duplicate preface in %s\n");
+		RRR_MSG_0("Could not duplicate preface in %s\n", __func__);
 		goto out;
 	}
 
 	if ((message_copy = rrr_msg_msg_duplicate(message)) == NULL) {
 		RRR_MSG_0("Could not duplicate message in %s\n", __func__);
+		ret = 1;
 		goto out;
 	}
 
-- 
2.43.0


From 783233c99a0372078b9f56033f7863b687692e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 029/103] fix: return error when stats message cannot be
 unpacked in cmodule helper

---
 src/lib/cmodule/cmodule_helper.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/cmodule/cmodule_helper.c b/src/lib/cmodule/cmodule_helper.c
index 36e0bde..cb9c704 100644
--- a/src/lib/cmodule/cmodule_helper.c
+++ b/src/lib/cmodule/cmodule_helper.c
@@ -534,6 +534,7 @@ static int __rrr_cmodule_helper_read_from_fork_stats_callback (
 			rrr_length_from_size_t_bug_const(data_size)
 	)) != 0) {
 		RRR_MSG_0("Failed to unpack stats message in %s\n", __func__);
+		ret = 1;
 		goto out;
 	};
 
-- 
2.43.0


From 8bfacda194f73f6a628a29f02f3a95b39f964d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 030/103] fix: return error when events cannot be created in
 cmodule worker loop

---
 src/lib/cmodule/cmodule_worker.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/cmodule/cmodule_worker.c b/src/lib/cmodule/cmodule_worker.c
index 5826381..1d0a153 100644
--- a/src/lib/cmodule/cmodule_worker.c
+++ b/src/lib/cmodule/cmodule_worker.c
@@ -757,6 +757,7 @@ static int __rrr_cmodule_worker_loop (
 		struct rrr_cmodule_worker *worker,
 		const struct rrr_cmodule_worker_callbacks *callbacks
 ) {
+	int ret = 0;
 	int ret_tmp;
 
 	if ( worker->do_spawning == 0 &&
@@ -799,6 +800,7 @@ static int __rrr_cmodule_worker_loop (
 			worker->spawn_interval
 	) != 0) {
 		RRR_MSG_0("Failed to create spawn event in  %s\n", __func__);
+		ret = 1;
 		goto out_cleanup_events;
 	}
 	EVENT_ADD(event_spawn);
@@ -812,6 +814,7 @@ static int __rrr_cmodule_worker_loop (
 				1000 * 1000 // 1000 ms
 		) != 0) {
 			RRR_MSG_0("Failed to create periodic event in  %s\n", __func__);
+			ret = 1;
 			goto out_cleanup_events;
 		}
 		EVENT_ADD(event_periodic);
@@ -832,7 +835,7 @@ static int __rrr_cmodule_worker_loop (
 
 	out_cleanup_events:
 	rrr_event_collection_clear(&events);
-	return 0;
+	return ret;
 }
 
 int rrr_cmodule_worker_loop_start (
-- 
2.43.0


From 94d4526a200198af872358a042e978cb95062d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 031/103] fix: return error when config complete message cannot
 be written in cmodule worker

---
 src/lib/cmodule/cmodule_worker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/cmodule/cmodule_worker.c b/src/lib/cmodule/cmodule_worker.c
index 1d0a153..38ba97d 100644
--- a/src/lib/cmodule/cmodule_worker.c
+++ b/src/lib/cmodule/cmodule_worker.c
@@ -892,14 +892,14 @@ int rrr_cmodule_worker_loop_start (
 	struct rrr_msg control_msg = {0};
 	rrr_msg_populate_control_msg(&control_msg, RRR_CMODULE_CONTROL_MSG_CONFIG_COMPLETE, 1);
 
-	if (rrr_mmap_channel_write (
+	if ((ret = rrr_mmap_channel_write (
 			worker->channel_to_parent,
 			worker->event_queue_parent,
 			&control_msg,
 			sizeof(control_msg),
 			__rrr_cmodule_worker_check_cancel_callback,
 			worker
-	) != 0) {
+	)) != 0) {
 		if (ret == RRR_EVENT_EXIT) {
 			goto out;
 		}
-- 
2.43.0


From e04f0574e626340c902f2c857c45e31c41d26195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 032/103] fix: reject conditions with missing operands instead
 of accepting the part before them

---
 src/lib/condition.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib/condition.c b/src/lib/condition.c
index a8f93c7..72fde58 100644
--- a/src/lib/condition.c
+++ b/src/lib/condition.c
@@ -430,14 +430,16 @@ int rrr_condition_interpret (
 				rrr_parse_match_letters(pos, &start, &end, RRR_PARSE_MATCH_LETTERS|RRR_PARSE_MATCH_NUMBERS);
 				if (end - start < 0) {
 					RRR_MSG_0("Variable name missing after {\n");
-					break;
+					ret = RRR_CONDITION_SOFT_ERROR;
+					goto out_clear;
 				}
 				else {
 					start -= 1;
 				}
 				if (!rrr_parse_match_word(pos, "}")) {
 					RRR_MSG_0("Missing } after variable name in condition\n");
-					break;
+					ret = RRR_CONDITION_SOFT_ERROR;
+					goto out_clear;
 				}
 				end += 1;
 			}
@@ -445,7 +447,8 @@ int rrr_condition_interpret (
 				rrr_parse_match_letters(pos, &start, &end, RRR_PARSE_MATCH_HEX);
 				if (end - start < 0) {
 					RRR_MSG_0("Hex value missing after 0x\n");
-					break;
+					ret = RRR_CONDITION_SOFT_ERROR;
+					goto out_clear;
 				}
 				else {
 					start -= 2;
@@ -455,7 +458,8 @@ int rrr_condition_interpret (
 				rrr_parse_match_letters(pos, &start, &end, RRR_PARSE_MATCH_NUMBERS);
 				if (end - start < 0) {
 					RRR_MSG_0("Value missing after negation -\n");
-					break;
+					ret = RRR_CONDITION_SOFT_ERROR;
+					goto out_clear;
 				}
 				start--;
 			}
@@ -463,7 +467,8 @@ int rrr_condition_interpret (
 				rrr_parse_match_letters(pos, &start, &end, RRR_PARSE_MATCH_NUMBERS);
 				if (end - start < 0) {
 					RRR_MSG_0("Value missing\n");
-					break;
+					ret = RRR_CONDITION_SOFT_ERROR;
+					goto out_clear;
 				}
 			}
 
-- 
2.43.0


From b102ac772a0d1b28156fd5cf18c8c186a3770449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 033/103] fix: fail instance startup when senders cannot be
 added in message broker

---
 src/lib/instances.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/instances.c b/src/lib/instances.c
index 19351c0..fc96454 100644
--- a/src/lib/instances.c
+++ b/src/lib/instances.c
@@ -872,6 +872,7 @@ static int __rrr_instance_before_start_tasks (
 	if (__rrr_instance_add_senders_to_broker(&faulty_instance, broker, instance) != 0) {
 		RRR_MSG_0("Failed to add senders of instance %s. Faulty sender was %s.\n",
 			INSTANCE_M_NAME(instance), (faulty_instance != NULL ? INSTANCE_M_NAME(faulty_instance): "(null)"));
+		ret = 1;
 		goto out;
 	}
 
-- 
2.43.0


From a1b91ec9b4f31381e3dad8169dfd3385534ec744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 034/103] fix: do not ignore errors from will message
 processing in MQTT broker

---
 src/lib/mqtt/mqtt_broker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index f558227..d7086a5 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -383,10 +383,10 @@ static int __rrr_mqtt_broker_handle_connect_will (
 		)) != 0) {
 			RRR_MSG_0("Could not create publish will message data in %s, ret %i, reason %u\n",
 					__func__, ret, *reason_v5);
-			if (ret == RRR_MQTT_SOFT_ERROR && reason_v5 == 0) {
+			if (ret == RRR_MQTT_SOFT_ERROR && *reason_v5 == 0) {
 				*reason_v5 = RRR_MQTT_P_5_REASON_UNSPECIFIED_ERROR;
-				goto out;
 			}
+			goto out;
 		}
 	}
 
-- 
2.43.0


From e3fb88c1ca95c5f1b39aa82e6db92d40df053b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 035/103] fix: return error when session cannot be cleared from
 other connections in MQTT broker

---
 src/lib/mqtt/mqtt_broker.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index d7086a5..42732dd 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -750,6 +750,7 @@ static int __rrr_mqtt_broker_handle_connect (RRR_MQTT_TYPE_HANDLER_DEFINITION) {
 			RRR_NET_TRANSPORT_CTX_HANDLE(handle)
 	) != 0) {
 		RRR_MSG_0("Could not clear session from other connections in %s\n", __func__);
+		ret = RRR_MQTT_INTERNAL_ERROR;
 		goto out;
 	}
 
-- 
2.43.0


From 2588a0e7d4fa26412680d4fb21a9b5a708ccb09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 036/103] fix: return error when SUBSCRIBE message cannot be
 filled in MQTT client

---
 src/lib/mqtt/mqtt_client.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/mqtt/mqtt_client.c b/src/lib/mqtt/mqtt_client.c
index 7a5e020..30a568c 100644
--- a/src/lib/mqtt/mqtt_client.c
+++ b/src/lib/mqtt/mqtt_client.c
@@ -250,6 +250,7 @@ int rrr_mqtt_client_subscribe (
 			NULL
 	) != 0) {
 		RRR_MSG_0("Could not add subscriptions to SUBSCRIBE message in %s\n", __func__);
+		ret = 1;
 		goto out_decref;
 	}
 
-- 
2.43.0


From 673a97116163998cf079f4654dce950443021687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 037/103] fix: return error when ftruncate fails while creating
 SHM

---
 src/lib/rrr_shm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/rrr_shm.c b/src/lib/rrr_shm.c
index ebce18f..de28a9d 100644
--- a/src/lib/rrr_shm.c
+++ b/src/lib/rrr_shm.c
@@ -227,6 +227,7 @@ static int __rrr_shm_open_create (
 
 	if (ftruncate (fd_tmp, (off_t) size) != 0) {
 		RRR_MSG_0("ftruncate size %llu failed in %s: %s\n", (long long unsigned) size, __func__, rrr_strerror(errno));
+		ret = 1;
 		goto out_close;
 	}
 
-- 
2.43.0


From 4a7f4e89eb8abbbc47d21b02ea13e50e36941b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 038/103] fix: return error when python3 socket object cannot
 be created

---
 src/lib/python3/python3_cmodule.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/python3/python3_cmodule.c b/src/lib/python3/python3_cmodule.c
index 7bf3baf..b127178 100644
--- a/src/lib/python3/python3_cmodule.c
+++ b/src/lib/python3/python3_cmodule.c
@@ -277,6 +277,7 @@ int rrr_py_cmodule_runtime_init (
 
 	if ((runtime->socket = rrr_python3_socket_new (worker)) == NULL) {
 		RRR_MSG_0("Could not create socket PyObject in  %s\n", __func__);
+		ret = 1;
 		goto out_cleanup_istate;
 	}
 
-- 
2.43.0


From f6c2b007a45210b47773fa40e5aade800504da57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 039/103] fix: return error when send loop events cannot be
 created

---
 src/lib/send_loop.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/send_loop.c b/src/lib/send_loop.c
index cbcb78b..9ab2986 100644
--- a/src/lib/send_loop.c
+++ b/src/lib/send_loop.c
@@ -153,6 +153,7 @@ int rrr_send_loop_new (
 			send_loop
 	) != 0) {
 		RRR_MSG_0("Failed to create run event in %s\n", __func__);
+		ret = 1;
 		goto out_clear_event_collection;
 	}
 
@@ -164,6 +165,7 @@ int rrr_send_loop_new (
 			250 * 1000 // 250 ms
 	) != 0) {
 		RRR_MSG_0("Failed to create periodic event in %s\n", __func__);
+		ret = 1;
 		goto out_clear_event_collection;
 	}
 
-- 
2.43.0


From 7a89dd50471834849927c1a12c018f210dcc1eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 040/103] fix: return error when zlib stream cannot be
 initialized

---
 src/lib/zlib/rrr_zlib.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/zlib/rrr_zlib.c b/src/lib/zlib/rrr_zlib.c
index 79e0231..85a9d0d 100644
--- a/src/lib/zlib/rrr_zlib.c
+++ b/src/lib/zlib/rrr_zlib.c
@@ -185,6 +185,7 @@ int rrr_zlib_gzip_decompress_with_outsize (
 
 	if (inflateInit2(&stream, 32 /* Enable auto gzip decompress */) != Z_OK) {
 		RRR_MSG_0("Failed to initialize stream in %s\n", __func__);
+		ret = RRR_ZLIB_ERR;
 		goto out;
 	}
 
@@ -299,6 +300,7 @@ int rrr_zlib_gzip_compress_with_outsize (
 			Z_DEFAULT_STRATEGY
 	) != Z_OK) {
 		RRR_MSG_0("Failed to initialize stream in %s\n", __func__);
+		ret = RRR_ZLIB_ERR;
 		goto out;
 	}
 
-- 
2.43.0


From dff3198a19124eb835e0bbff25009c30de499ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 041/103] fix: return error when message db server cannot be
 started

---
 src/modules/d_msgdb.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/d_msgdb.c b/src/modules/d_msgdb.c
index f49af35..5b611f2 100644
--- a/src/modules/d_msgdb.c
+++ b/src/modules/d_msgdb.c
@@ -148,6 +148,7 @@ static int msgdb_fork_init_wrapper_callback (RRR_CMODULE_INIT_WRAPPER_CALLBACK_A
 	) != 0) {
 		RRR_MSG_0("Could not start message db server in msgdb instance %s\n",
 			INSTANCE_D_NAME(data->thread_data));
+		ret = 1;
 		goto out;
 	}
 
-- 
2.43.0


From 99d41296bf90dc5511fdd5500696473b4532e069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 042/103] fix: exit with failure when pipe to wrapper cannot be
 created in rrr_logd

---
 src/rrr_logd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rrr_logd.c b/src/rrr_logd.c
index 4841bb9..794c5ed 100644
--- a/src/rrr_logd.c
+++ b/src/rrr_logd.c
@@ -571,6 +571,7 @@ int main (int argc, const char **argv, const char **env) {
 
 		if (rrr_socket_pipe_blocking(fd_to_wrapper, "logd wrapper") != 0) {
 			RRR_MSG_0("Failed to create pipe to wrapper\n");
+			ret = EXIT_FAILURE;
 			goto out_cleanup_clients;
 		}
 
-- 
2.43.0


From ebe1b9737fb0f7b5d4a789ebce55be14fb30410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 043/103] fix: return error when statement cannot be prepared
 in mysql

---
 src/modules/p_mysql.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/p_mysql.c b/src/modules/p_mysql.c
index b8aa68a..0454e28 100644
--- a/src/modules/p_mysql.c
+++ b/src/modules/p_mysql.c
@@ -657,6 +657,7 @@ static int mysql_process_entries (
 		RRR_MSG_0 ("mysql: Failed to prepare statement: Error: %s\n",
 				mysql_error(&data->mysql));
 		mysql_disconnect(data);
+		ret = 1;
 		goto out;
 	}
 
-- 
2.43.0


From 7a567b42185419f7fa42005b2f7267d9760f7871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 044/103] fix: return error when python3 thread state cannot be
 created

---
 src/lib/python3/python3_cmodule.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/python3/python3_cmodule.c b/src/lib/python3/python3_cmodule.c
index b127178..68dde64 100644
--- a/src/lib/python3/python3_cmodule.c
+++ b/src/lib/python3/python3_cmodule.c
@@ -238,6 +238,7 @@ int rrr_py_cmodule_runtime_init (
 	int ret = 0;
 
 	if ((runtime->istate = __rrr_py_new_thread_state()) == NULL) {
+		ret = 1;
 		goto out;
 	}
 
-- 
2.43.0


From 2c8686308d9033ea7c54d430c2c84c8c89466646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 045/103] fix: do not overwrite write errors with notification
 result when writing collection in message broker

---
 src/lib/message_broker.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/message_broker.c b/src/lib/message_broker.c
index f8e35dc..e47b4e1 100644
--- a/src/lib/message_broker.c
+++ b/src/lib/message_broker.c
@@ -1318,6 +1318,7 @@ int rrr_message_broker_write_entries_from_collection_unsafe (
 		goto out;
 	}
 
+	int ret_tmp = 0;
 	int written_entries = RRR_LL_COUNT(collection);
 
 	RRR_LL_ITERATE_BEGIN(collection, struct rrr_msg_holder);
@@ -1340,7 +1341,7 @@ int rrr_message_broker_write_entries_from_collection_unsafe (
 
 	while (written_entries > 0) {
 		if (written_entries > 0xff) {
-			ret = __rrr_message_broker_write_notifications_send (
+			ret_tmp = __rrr_message_broker_write_notifications_send (
 					costumer,
 					0xff,
 					check_cancel_callback,
@@ -1349,7 +1350,7 @@ int rrr_message_broker_write_entries_from_collection_unsafe (
 			written_entries -= 0xff;
 		}
 		else {
-			ret = __rrr_message_broker_write_notifications_send (
+			ret_tmp = __rrr_message_broker_write_notifications_send (
 					costumer,
 					(uint8_t) written_entries,
 					check_cancel_callback,
@@ -1357,6 +1358,9 @@ int rrr_message_broker_write_entries_from_collection_unsafe (
 			);
 			written_entries = 0;
 		}
+		if (ret == 0) {
+			ret = ret_tmp;
+		}
 	}
 
 	out:
-- 
2.43.0


From f6dc84bec8000da4a945a7d1dc35dc2098ce2907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 046/103] fix: return error when watchdog data cannot be
 allocated while starting threads

---
 src/lib/threads.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/threads.c b/src/lib/threads.c
index 7650402..5027c6a 100644
--- a/src/lib/threads.c
+++ b/src/lib/threads.c
@@ -1129,7 +1129,7 @@ int rrr_thread_collection_start_all (
 
 		RRR_DBG_8 ("Starting thread %s\n", node->name);
 
-		if (__rrr_thread_allocate_watchdog_data(&watchdog_data) != 0) {
+		if ((ret = __rrr_thread_allocate_watchdog_data(&watchdog_data)) != 0) {
 			goto out;
 		}
 
-- 
2.43.0


From 9faccc64c5f75a7ef35d4a977930e06841a64b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 047/103] fix: do not count length of MQTT blob properties
 twice

---
 src/lib/mqtt/mqtt_parse.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 18577aa..81fa6b5 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -679,8 +679,6 @@ static int __rrr_mqtt_parse_property_blob (RRR_PROPERTY_PARSER_DEFINITION) {
 	target->length_orig = blob_length;
 	target->internal_data_type = RRR_MQTT_PROPERTY_DATA_TYPE_INTERNAL_BLOB;
 
-	bytes_parsed += blob_length;
-
 	*bytes_parsed_final = bytes_parsed;
 
 	return ret;
-- 
2.43.0


From 61dbbe551591f924dcd1de4fa8dc6ded1107a4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 048/103] fix: do not leak property when parsing of MQTT
 property fails

---
 src/lib/mqtt/mqtt_parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 81fa6b5..dd2bd9c 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -793,7 +793,7 @@ static int __rrr_mqtt_parse_properties (
 		start = end;
 		ret = property_parsers[property_def->internal_data_type](property_tmp, session, start, &bytes_parsed);
 		if (ret != 0) {
-			return ret;
+			goto out;
 		}
 		end = start + bytes_parsed;
 
-- 
2.43.0


From 0d962a010c9d0e3c9b63eed9c8d6e96d5c1fd9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 049/103] fix: keep entries for retry when mysql connection or
 statement preparation fails

---
 src/modules/p_mysql.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modules/p_mysql.c b/src/modules/p_mysql.c
index 0454e28..0a0181a 100644
--- a/src/modules/p_mysql.c
+++ b/src/modules/p_mysql.c
@@ -698,7 +698,10 @@ static void mysql_event_process_entries (
 
 	// Entries which are to be retried are written back to the input buffer
 	RRR_LL_MERGE_AND_CLEAR_SOURCE_HEAD(&process_buffer_tmp, &data->input_buffer);
-	mysql_process_entries(data, &process_buffer_tmp);
+	if (mysql_process_entries(data, &process_buffer_tmp) != 0) {
+		// Nothing was processed, keep the entries for retry
+		RRR_LL_MERGE_AND_CLEAR_SOURCE_HEAD(&data->input_buffer, &process_buffer_tmp);
+	}
 
 	pthread_cleanup_pop(1);
 
-- 
2.43.0


From 858f4bc209e91864543cab3134a571bad684ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 050/103] fix: report errors and do not leak socket when
 accepted connection cannot be set up

---
 src/lib/ip/ip.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/ip/ip.c b/src/lib/ip/ip.c
index 8c8ee27..021758f 100644
--- a/src/lib/ip/ip.c
+++ b/src/lib/ip/ip.c
@@ -534,16 +534,19 @@ int rrr_ip_accept (
 
 	if (setsockopt (fd, SOL_SOCKET, SO_REUSEADDR, &enable, sizeof(enable)) != 0) {
 		RRR_MSG_0 ("Could not set SO_REUSEADDR for accepted connection: %s\n", rrr_strerror(errno));
+		ret = 1;
 		goto out_close_socket;
 	}
 
 	int flags = fcntl(fd, F_GETFL, 0);
 	if (flags == -1) {
 		RRR_MSG_0("Error while getting flags with fcntl for socket: %s\n", rrr_strerror(errno));
+		ret = 1;
 		goto out_close_socket;
 	}
 	if (fcntl(fd, F_SETFL, flags | O_NONBLOCK) == -1) {
 		RRR_MSG_0("Error while setting O_NONBLOCK on socket: %s\n", rrr_strerror(errno));
+		ret = 1;
 		goto out_close_socket;
 	}
 
@@ -551,7 +554,7 @@ int rrr_ip_accept (
 	if (res == NULL) {
 		RRR_MSG_0("Could not allocate memory in ip_accept\n");
 		ret = 1;
-		goto out;
+		goto out_close_socket;
 	}
 	memset (res, '\0', sizeof(*res));
 
-- 
2.43.0


From edc29d18a77fa73a9938b95fb493083c9e0788e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 051/103] fix: reject configuration with missing block and
 definition names

---
 src/lib/configuration.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/configuration.c b/src/lib/configuration.c
index c633e85..e586bc9 100644
--- a/src/lib/configuration.c
+++ b/src/lib/configuration.c
@@ -202,6 +202,7 @@ static int __rrr_config_parse_block (
 
 	if (callback_data.name_main == NULL) {
 		RRR_MSG_0("Block name missing after [\n");
+		ret = 1;
 		goto out;
 	}
 
@@ -262,6 +263,7 @@ static int __rrr_config_parse_array_tree (
 
 	if (name == NULL) {
 		RRR_MSG_0("Array tree name missing after [\n");
+		ret = 1;
 		goto out;
 	}
 
@@ -307,6 +309,7 @@ static int __rrr_config_parse_discern_stack (
 	if (name == NULL) {
 		RRR_MSG_0("Definition name for %s missing after %c\n",
 			type_name, delimeters[0]);
+		ret = 1;
 		goto out;
 	}
 
-- 
2.43.0


From 56daf83df1474923dda76195b98adc09f3ebc892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 052/103] fix: return error when HTTP encoding is not supported

---
 src/lib/http/http_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 0904eca..571ec7f 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -1752,6 +1752,7 @@ int rrr_http_util_encode (
 #endif
 
 	RRR_MSG_0("Unsupported HTTP encoding '%s'\n", encoding);
+	ret = 1;
 
 	out:
 	return ret;
-- 
2.43.0


From 659d36c9add451120c0992797e00992959d2a826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 053/103] fix: return error when address string cannot be
 created in IP helper

---
 src/lib/ip/ip_helper.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/ip/ip_helper.c b/src/lib/ip/ip_helper.c
index 22ce3f0..e34f509 100644
--- a/src/lib/ip/ip_helper.c
+++ b/src/lib/ip/ip_helper.c
@@ -167,6 +167,7 @@ int rrr_ip_socket_client_collection_send_push_const_by_host_and_port_connect_as_
 
 	if (!(rrr_asprintf(&addr_string, "%s:%u", host, port) > 0)) {
 		RRR_MSG_0("Failed to create address string in %s\n", __func__);
+		ret = 1;
 		goto out;
 	}
 
-- 
2.43.0


From 9d9f17da15cb065dc8d9a5368f9a35e9b7687909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 054/103] fix: return error when value is too long for MQTT
 property

---
 src/lib/mqtt/mqtt_property.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/mqtt/mqtt_property.c b/src/lib/mqtt/mqtt_property.c
index 32feca7..940efc4 100644
--- a/src/lib/mqtt/mqtt_property.c
+++ b/src/lib/mqtt/mqtt_property.c
@@ -348,6 +348,7 @@ int rrr_mqtt_property_collection_add_uint32 (
 	if (value > max) {
 		RRR_MSG_0("Value %u was too long to be held by property 0x%02x in %s, max is %" PRIu32"\n",
 				value, id, __func__, max);
+		ret = 1;
 		goto out;
 	}
 
-- 
2.43.0


From f3b55a8cbe5951511de2f29fd7cdf05d6816143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 055/103] fix: return error when topic is too long in message
 DB client

---
 src/lib/msgdb/msgdb_client.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/msgdb/msgdb_client.c b/src/lib/msgdb/msgdb_client.c
index 1c9674d..8787406 100644
--- a/src/lib/msgdb/msgdb_client.c
+++ b/src/lib/msgdb/msgdb_client.c
@@ -253,6 +253,7 @@ static int __rrr_msgdb_client_send_empty (
 			(unsigned long long) topic_len,
 			(unsigned long long) UINT16_MAX
 		);
+		ret = 1;
 		goto out;
 	}
 
-- 
2.43.0


From b1cc6d6fd92663eb63b49e4e0c4381c3054fc82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 056/103] fix: reject transport types which are not compiled in

---
 src/lib/net_transport/net_transport_config.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/net_transport/net_transport_config.c b/src/lib/net_transport/net_transport_config.c
index a55b966..1861e98 100644
--- a/src/lib/net_transport/net_transport_config.c
+++ b/src/lib/net_transport/net_transport_config.c
@@ -109,6 +109,8 @@ static int __rrr_net_transport_config_parse_transport_type_callback (
 #else
 		RRR_MSG_0("TLS transport type specified in %s_transport_type but RRR is not compiled with TLS support\n",
 			prefix);
+		ret = 1;
+		goto out;
 #endif
 	}
 	else if (strcasecmp(value, "quic") == 0) {
@@ -117,6 +119,8 @@ static int __rrr_net_transport_config_parse_transport_type_callback (
 #else
 		RRR_MSG_0("QUIC transport type specified in %s_transport_type but RRR is not compiled with QUIC support\n",
 			prefix);
+		ret = 1;
+		goto out;
 #endif
 	}
 	else {
-- 
2.43.0


From 8659766a1d1639dba162a64319328baf174c87ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 057/103] fix: do not proceed with truncated lengths after
 reporting that data is too long

---
 src/lib/read.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/read.c b/src/lib/read.c
index 33d88bf..0e2179f 100644
--- a/src/lib/read.c
+++ b/src/lib/read.c
@@ -715,6 +715,7 @@ int rrr_read_common_get_session_target_length_from_message_and_checksum_raw (
 			(unsigned long long) data_size,
 			(unsigned long long) RRR_LENGTH_MAX
 		);
+		return RRR_READ_SOFT_ERROR;
 	}
 
 	rrr_length target_size = 0;
@@ -785,6 +786,7 @@ int rrr_read_common_get_session_target_length_from_array_tree (
 			(unsigned long long) read_session->rx_buf_wpos,
 			(unsigned long long) RRR_LENGTH_MAX
 		);
+		return RRR_READ_SOFT_ERROR;
 	}
 
 	const rrr_length wpos = (rrr_length) read_session->rx_buf_wpos;
-- 
2.43.0


From e11608a3d62087fd2b372d65cea1467fdf3595de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 058/103] fix: return error when topic filter cannot be created
 in httpserver

---
 src/modules/p_httpserver.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/p_httpserver.c b/src/modules/p_httpserver.c
index ca2c18d..6a1aa59 100644
--- a/src/modules/p_httpserver.c
+++ b/src/modules/p_httpserver.c
@@ -796,6 +796,7 @@ static int httpserver_response_data_new (
 
 	if (rrr_asprintf (&result->request_topic_filter_long, "%s/#", result->request_topic_base) <= 0) {
 		RRR_MSG_0("Failed to allocate memory for topic filter in %s\n", __func__);
+		ret = 1;
 		goto out_free_topic_base;
 	}
 
-- 
2.43.0


From 6f84f72c3f8292111d62bed996e0d157bc237fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 059/103] fix: exit with failure when wrapper cannot be
 executed in rrr_logd

---
 src/rrr_logd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rrr_logd.c b/src/rrr_logd.c
index 794c5ed..165ffb6 100644
--- a/src/rrr_logd.c
+++ b/src/rrr_logd.c
@@ -603,6 +603,7 @@ int main (int argc, const char **argv, const char **env) {
 
 			RRR_MSG_0("Failed to execute wrapper '%s': %s\n", data.wrapper[0], rrr_strerror(errno));
 
+			ret = EXIT_FAILURE;
 			goto out_cleanup_pipe;
 		}
 
-- 
2.43.0


From 1de242e8ae7e63da2db0bee3b6529160a881d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 060/103] fix: fail selftest when address cannot be created in
 rrr_msg

---
 src/rrr_msg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rrr_msg.c b/src/rrr_msg.c
index 84c9d49..cf985f2 100644
--- a/src/rrr_msg.c
+++ b/src/rrr_msg.c
@@ -257,6 +257,8 @@ static int __rrr_msg_selftest (
 
 		if (inet_pton(AF_INET, "1.2.3.4", &(in.sin_addr)) != 1) {
 			RRR_MSG_0("inet_pton failed\n");
+			ret = 1;
+			goto out;
 		}
 
 		in.sin_family = AF_INET;
-- 
2.43.0


From 2bcbf118f0b5d899f6cd3d9ec7ae0ccdd254e8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 061/103] fix: return error when transport configuration is
 invalid in mqttclient

---
 src/modules/p_mqttclient.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/p_mqttclient.c b/src/modules/p_mqttclient.c
index 4b1102e..a489569 100644
--- a/src/modules/p_mqttclient.c
+++ b/src/modules/p_mqttclient.c
@@ -1145,6 +1145,7 @@ static int mqttclient_parse_config (struct mqtt_client_data *data, struct rrr_in
 			RRR_NET_TRANSPORT_F_PLAIN
 #endif
 	)) != 0) {
+		ret = 1;
 		goto out;
 	}
 
-- 
2.43.0


From f18608fcd3452b94bb7540897c2063f6d10fd237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 062/103] fix: return error when password encryption fails

---
 src/lib/passwd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/passwd.c b/src/lib/passwd.c
index 1169b79..c3837c8 100644
--- a/src/lib/passwd.c
+++ b/src/lib/passwd.c
@@ -410,6 +410,7 @@ int rrr_passwd_encrypt (
 	sprintf(final, "$%c$%s$", RRR_PASSWD_ENCTYPE_OPENSSL, base64_tmp);
 
 	if (__rrr_passwd_openssl_encrypt(tmp, password, (const unsigned char *) base64_tmp) != 0) {
+		ret = 1;
 		goto out;
 	}
 
-- 
2.43.0


From 98918dd3603af2877bd5dd049df63c5d5d2d9f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 063/103] fix: destroy thread collection when instance runtime
 data cannot be created

---
 src/lib/instances.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/instances.c b/src/lib/instances.c
index fc96454..5491d79 100644
--- a/src/lib/instances.c
+++ b/src/lib/instances.c
@@ -1176,7 +1176,7 @@ static int __rrr_instances_create_threads (
 			RRR_MSG_0("Error while creating runtime data for instance %s\n",
 				INSTANCE_M_NAME(node));
 			ret = 1;
-			goto out;
+			goto out_destroy;
 		}
 
 		if ((thread = rrr_thread_collection_thread_create_and_preload (
@@ -1355,7 +1355,7 @@ int rrr_instance_run (
 		RRR_MSG_0("Error while creating runtime data for instance %s\n",
 			INSTANCE_M_NAME(instance));
 		ret = 1;
-		goto out;
+		goto out_destroy;
 	}
 
 	if ((thread = rrr_thread_collection_thread_create_and_preload (
-- 
2.43.0


From 7dc5d80b68d67a1ec4a29e45ec8596f209797ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 064/103] fix: do not leak HTTP transaction when unique ID
 cannot be generated

---
 src/lib/http/http_transaction.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/http/http_transaction.c b/src/lib/http/http_transaction.c
index 4c9c168..7c71b6f 100644
--- a/src/lib/http/http_transaction.c
+++ b/src/lib/http/http_transaction.c
@@ -80,7 +80,7 @@ int rrr_http_transaction_new (
 	}
 
 	if ((ret = unique_id_generator_callback(&result->unique_id, unique_id_generator_callback_arg)) != 0) {
-		goto out;
+		goto out_free_endpoint;
 	}
 
 	if (application_data != NULL) {
@@ -98,8 +98,8 @@ int rrr_http_transaction_new (
 	*target = result;
 
 	goto out;
-//	out_free_uri:
-//		free(result->uri_str);
+	out_free_endpoint:
+		rrr_free(result->endpoint_str);
 	out_free_response:
 		rrr_http_part_destroy(result->response_part);
 	out_free_request:
-- 
2.43.0


From 5efe9ffb5e93e85f7d5bfce64f256c01b1f216da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:46 +0000
Subject: [PATCH 065/103] fix: close file when mode cannot be set in file
 module

---
 src/modules/p_file.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/p_file.c b/src/modules/p_file.c
index 2ab2f53..2e844f6 100644
--- a/src/modules/p_file.c
+++ b/src/modules/p_file.c
@@ -970,6 +970,9 @@ static int file_probe_excact_or_create (
 		if (chmod(orig_path, data->write_mode) == -1) {
 			RRR_MSG_0("Failed to set mode on file '%s' in file instance %s: %s\n",
 				orig_path, INSTANCE_D_NAME(data->thread_data), rrr_strerror(errno));
+			if (fd != -1) {
+				close(fd);
+			}
 			ret = RRR_FILE_SOFT_ERROR;
 			goto out;
 		}
@@ -977,6 +980,7 @@ static int file_probe_excact_or_create (
 
 	if (fd != -1) {
 		close(fd);
+		fd = -1;
 	}
 
 	struct file_probe_excact_callback_data callback_data = {
-- 
2.43.0


From b3deadc27e333df67cd4d045be7502f8c63bf825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 066/103] fix: make format strings of messages match their
 arguments

---
 src/lib/cmodule/cmodule_worker.c                    | 2 +-
 src/lib/helpers/log_helper.c                        | 2 +-
 src/lib/http/http_application_http2.c               | 8 ++++----
 src/lib/http/http_client.c                          | 4 ++--
 src/lib/http/http_session.c                         | 2 +-
 src/lib/http/http_stream.c                          | 2 +-
 src/lib/instance_config.c                           | 2 +-
 src/lib/lua/lua_config.c                            | 2 +-
 src/lib/lua/lua_message.c                           | 2 +-
 src/lib/msgdb/msgdb_server.c                        | 2 +-
 src/lib/net_transport/net_transport_config.c        | 6 +++---
 src/lib/net_transport/net_transport_connection_id.c | 2 +-
 src/lib/net_transport/net_transport_openssl.c       | 2 +-
 src/lib/net_transport/net_transport_tls_common.c    | 2 +-
 src/lib/perl5/perl5_types.c                         | 2 +-
 src/lib/perl5/perl5_xsub.c                          | 2 +-
 src/lib/python3/python3_message.c                   | 2 +-
 src/modules/p_modbus.c                              | 2 +-
 src/rrr_logd.c                                      | 4 ++--
 src/rrr_stats.c                                     | 2 +-
 20 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/lib/cmodule/cmodule_worker.c b/src/lib/cmodule/cmodule_worker.c
index 38ba97d..076d8c0 100644
--- a/src/lib/cmodule/cmodule_worker.c
+++ b/src/lib/cmodule/cmodule_worker.c
@@ -716,7 +716,7 @@ static int __rrr_cmodule_worker_event_periodic (
 				if (ret_tmp == RRR_EVENT_EXIT) {
 					return ret_tmp;
 				}
-				RRR_MSG_0("Error from PING callback in worker %s pid %i return was %i\n",
+				RRR_MSG_0("Error from PING callback in worker %s pid %ld return was %i\n",
 						worker->name, (long) getpid(), ret_tmp);
 			}
 		}
diff --git a/src/lib/helpers/log_helper.c b/src/lib/helpers/log_helper.c
index e375559..797f093 100644
--- a/src/lib/helpers/log_helper.c
+++ b/src/lib/helpers/log_helper.c
@@ -157,7 +157,7 @@ int rrr_log_helper_extract_log_fields_from_array (
 	}
 
 	if ((log_flags_tmp & ~(RRR_MSG_LOG_F_ALL)) != 0) {
-		RRR_MSG_0("Invalid flags %" PRIx64 " in log flags\n");
+		RRR_MSG_0("Invalid flags %" PRIx64 " in log flags\n", log_flags_tmp);
 		ret = RRR_LOG_HELPER_SOFT_ERROR;
 		goto out;
 	}
diff --git a/src/lib/http/http_application_http2.c b/src/lib/http/http_application_http2.c
index b0c0c1c..5431114 100644
--- a/src/lib/http/http_application_http2.c
+++ b/src/lib/http/http_application_http2.c
@@ -352,7 +352,7 @@ static int __rrr_http_application_http2_data_receive_callback (
 
 	if (is_server) {
 		if (transaction == NULL) {
-			RRR_DBG_3("HTTP2 stream [%" PRIi64 "] data receive callback server new transaction\n", stream_id);
+			RRR_DBG_3("HTTP2 stream [%" PRIi32 "] data receive callback server new transaction\n", stream_id);
 
 			if ((ret = rrr_http_transaction_new (
 					&transaction_to_destroy,
@@ -382,13 +382,13 @@ static int __rrr_http_application_http2_data_receive_callback (
 			transaction = transaction_to_destroy;
 		}
 		else {
-			RRR_DBG_3("HTTP2 stream [%" PRIi64 "] data receive callback server existing transaction\n", stream_id);
+			RRR_DBG_3("HTTP2 stream [%" PRIi32 "] data receive callback server existing transaction\n", stream_id);
 		}
 
 		rrr_http_transaction_stream_flags_add(transaction, flags);
 
 		if (rrr_http_transaction_stream_flags_has(transaction, RRR_HTTP_DATA_SEND_FLAG_IS_HEADERS_END)) {
-			RRR_DBG_3("HTTP2 stream [%" PRIi64 "] send headers end\n",
+			RRR_DBG_3("HTTP2 stream [%" PRIi32 "] send headers end\n",
 				stream_id);
 			goto out;
 		}
@@ -396,7 +396,7 @@ static int __rrr_http_application_http2_data_receive_callback (
 		RRR_LL_MERGE_AND_CLEAR_SOURCE_HEAD(&transaction->request_part->headers, headers);
 	}
 	else {
-		RRR_DBG_3("HTTP2 stream [%" PRIi64 "] data receive callback client\n", stream_id);
+		RRR_DBG_3("HTTP2 stream [%" PRIi32 "] data receive callback client\n", stream_id);
 
 		rrr_http_transaction_stream_flags_add(transaction, flags);
 
diff --git a/src/lib/http/http_client.c b/src/lib/http/http_client.c
index 5158197..6ea92fa 100644
--- a/src/lib/http/http_client.c
+++ b/src/lib/http/http_client.c
@@ -937,7 +937,7 @@ static int __rrr_http_client_request_send_final_transport_ctx_callback (
 				ret = 0;
 				goto out;
 			}
-			RRR_MSG_0("Error %i from query prepare callback in %a\n", ret, __func__);
+			RRR_MSG_0("Error %i from query prepare callback in %s\n", ret, __func__);
 			goto out;
 		}
 	}
@@ -954,7 +954,7 @@ static int __rrr_http_client_request_send_final_transport_ctx_callback (
 		else {
 			RRR_FREE_IF_NOT_NULL(endpoint_to_free);
 			if ((endpoint_to_free = rrr_strdup("/")) == NULL) {
-				RRR_MSG_0("Could not allocate memory for endpoint in %s\n");
+				RRR_MSG_0("Could not allocate memory for endpoint in %s\n", __func__);
 				ret = RRR_HTTP_HARD_ERROR;
 				goto out;
 			}
diff --git a/src/lib/http/http_session.c b/src/lib/http/http_session.c
index e71e83e..97adc1a 100644
--- a/src/lib/http/http_session.c
+++ b/src/lib/http/http_session.c
@@ -175,7 +175,7 @@ int rrr_http_session_transport_ctx_client_new_or_clean (
 		if (user_agent != NULL && *user_agent != '\0') {
 			session->user_agent = rrr_strdup(user_agent);
 			if (session->user_agent == NULL) {
-				RRR_MSG_0("Could not allocate memory for user agent in %s\n");
+				RRR_MSG_0("Could not allocate memory for user agent in %s\n", __func__);
 				ret = 1;
 				goto out_destroy_session;
 			}
diff --git a/src/lib/http/http_stream.c b/src/lib/http/http_stream.c
index 44a7bdc..102ef25 100644
--- a/src/lib/http/http_stream.c
+++ b/src/lib/http/http_stream.c
@@ -82,7 +82,7 @@ void rrr_http_stream_collection_destroy (
 		// stream ID is correct and will actually be sent.
 		RRR_HTTP_STREAMS_ITERATE_ACTIVE_BEGIN();
 			uint64_t age_ms = (rrr_time_get_64() - node->creation_time) / 1000;
-			RRR_DBG_3("http stream id %i late destroy (upon collection destruction), age is %" PRIu64 "ms\n",
+			RRR_DBG_3("http stream id %" PRIi64 " late destroy (upon collection destruction), age is %" PRIu64 "ms\n",
 					collection->stream_ids[i], age_ms);
 		RRR_HTTP_STREAMS_ITERATE_END();
 	}
diff --git a/src/lib/instance_config.c b/src/lib/instance_config.c
index 2fd1f6b..7d8063c 100644
--- a/src/lib/instance_config.c
+++ b/src/lib/instance_config.c
@@ -401,7 +401,7 @@ static int __rrr_instance_config_parse_name_or_definition_from_config_silent_fai
 			if (rrr_parse_match_word(&pos, ",")) {
 				rrr_parse_ignore_space_and_tab(&pos);
 				if (!rrr_parse_match_word(&pos, tag_start)) {
-					RRR_MSG_0("Expected tag start %s after comma\n");
+					RRR_MSG_0("Expected tag start %s after comma\n", tag_start);
 					ret = 1;
 					goto out;
 				}
diff --git a/src/lib/lua/lua_config.c b/src/lib/lua/lua_config.c
index 2e73746..4b49b24 100644
--- a/src/lib/lua/lua_config.c
+++ b/src/lib/lua/lua_config.c
@@ -105,7 +105,7 @@ static int __rrr_lua_config_f_get(lua_State *L) {
 				key
 		)) != 0) {
 			luaL_error(L, "Failed to get config value, return was %d\n",
-				(lua_Integer) ret_tmp);
+				ret_tmp);
 		}
 		lua_pushstring(L, str);
 		rrr_free(str);
diff --git a/src/lib/lua/lua_message.c b/src/lib/lua/lua_message.c
index 6c5b0fd..2341865 100644
--- a/src/lib/lua/lua_message.c
+++ b/src/lib/lua/lua_message.c
@@ -725,7 +725,7 @@ static int __rrr_lua_message_f_push_tag(lua_State *L) {
 			case LUA_TTHREAD:
 			case LUA_TLIGHTUSERDATA:
 			default:
-				luaL_error(L, "Cannot push value of type %s to array\n", lua_type(L, -1));
+				luaL_error(L, "Cannot push value of type %s to array\n", luaL_typename(L, -1));
 				return 1;
 		};
 	);
diff --git a/src/lib/msgdb/msgdb_server.c b/src/lib/msgdb/msgdb_server.c
index e039a21..c4bd946 100644
--- a/src/lib/msgdb/msgdb_server.c
+++ b/src/lib/msgdb/msgdb_server.c
@@ -1367,7 +1367,7 @@ int rrr_msgdb_server_new (
 	memset(server, '\0', sizeof(*server));
 
 	if ((server->directory = rrr_strdup(directory)) == NULL) {
-		RRR_MSG_0("Could not allocate memory for directory in %S\n", __func__);
+		RRR_MSG_0("Could not allocate memory for directory in %s\n", __func__);
 		ret = 1;
 		goto out_free;
 	}
diff --git a/src/lib/net_transport/net_transport_config.c b/src/lib/net_transport/net_transport_config.c
index 1861e98..7a45308 100644
--- a/src/lib/net_transport/net_transport_config.c
+++ b/src/lib/net_transport/net_transport_config.c
@@ -178,20 +178,20 @@ int rrr_net_transport_config_parse (
 
 	if (disallowed_transports & RRR_NET_TRANSPORT_F_PLAIN) {
 		RRR_MSG_0("Plain transport type specified in %s_transport_type but type is not allowed in instance %s\n",
-			prefix);
+			prefix, config->name_main);
 		ret = 1;
 	}
 #if defined(RRR_WITH_LIBRESSL) || defined(RRR_WITH_OPENSSL)
 	if (disallowed_transports & RRR_NET_TRANSPORT_F_TLS) {
 		RRR_MSG_0("TLS transport type specified in %s_transport_type but type is not allowed in instance %s\n",
-			prefix);
+			prefix, config->name_main);
 		ret = 1;
 	}
 #endif
 #if defined(RRR_WITH_HTTP3)
 	if (disallowed_transports & RRR_NET_TRANSPORT_F_QUIC) {
 		RRR_MSG_0("QUIC transport type specified in %s_transport_type but type is not allowed in instance %s\n",
-			prefix);
+			prefix, config->name_main);
 		ret = 1;
 	}
 #endif
diff --git a/src/lib/net_transport/net_transport_connection_id.c b/src/lib/net_transport/net_transport_connection_id.c
index c47406e..d6c084b 100644
--- a/src/lib/net_transport/net_transport_connection_id.c
+++ b/src/lib/net_transport/net_transport_connection_id.c
@@ -33,7 +33,7 @@ void rrr_net_transport_connection_id_to_str (
 		const struct rrr_net_transport_connection_id *id
 ) {
 	if (buf_len < id->length * 2 + 1) {
-		RRR_BUG("Output buffer too small in %s (%s<%s)\n", __func__, buf_len, id->length);
+		RRR_BUG("Output buffer too small in %s (%zu<%zu)\n", __func__, buf_len, id->length);
 	}
 
 	*buf = '\0';
diff --git a/src/lib/net_transport/net_transport_openssl.c b/src/lib/net_transport/net_transport_openssl.c
index a3cd91b..cf2a29f 100644
--- a/src/lib/net_transport/net_transport_openssl.c
+++ b/src/lib/net_transport/net_transport_openssl.c
@@ -531,7 +531,7 @@ int __rrr_net_transport_openssl_accept (
 		char buf[128];
 		rrr_ip_to_str(buf, sizeof(buf), (const struct sockaddr *) &accept_data->addr, accept_data->len);
 		RRR_DBG_7("OpenSSL accepted connection on port %u from %s transport handle %p/%i\n",
-				listen_ssl_data->ip_data.port, buf, listen_handle->transport, new_handle);
+				listen_ssl_data->ip_data.port, buf, listen_handle->transport, *new_handle);
 	}
 
 	ret = callback (
diff --git a/src/lib/net_transport/net_transport_tls_common.c b/src/lib/net_transport/net_transport_tls_common.c
index 97057d9..43c7cd2 100644
--- a/src/lib/net_transport/net_transport_tls_common.c
+++ b/src/lib/net_transport/net_transport_tls_common.c
@@ -49,7 +49,7 @@ static int __rrr_net_transport_tls_common_alpn_populate (
 		goto out;
 
 	if ((target->protos = rrr_allocate(in_size)) == NULL) {
-		RRR_MSG_0("Could not allocate memory for ALPN protos in %s\n");
+		RRR_MSG_0("Could not allocate memory for ALPN protos in %s\n", __func__);
 		ret = 1;
 		goto out;
 	}
diff --git a/src/lib/perl5/perl5_types.c b/src/lib/perl5/perl5_types.c
index bab25ab..beca66d 100644
--- a/src/lib/perl5/perl5_types.c
+++ b/src/lib/perl5/perl5_types.c
@@ -787,7 +787,7 @@ static int __rrr_perl5_type_to_value_ustr_istr (RRR_PERL5_TYPE_TO_VALUE_ARGS) {
 		}
 
 		if (parsed_bytes < node->data_size - 1) {
-			RRR_MSG_0("Invalid characters in perl5 istr or ustr in array value index %i at position ~%li\n", i, parsed_bytes);
+			RRR_MSG_0("Invalid characters in perl5 istr or ustr in array value index %i at position ~%" PRIrrrl "\n", i, parsed_bytes);
 			ret = 1;
 			goto out;
 		}
diff --git a/src/lib/perl5/perl5_xsub.c b/src/lib/perl5/perl5_xsub.c
index 46174ff..2ed3ef4 100644
--- a/src/lib/perl5/perl5_xsub.c
+++ b/src/lib/perl5/perl5_xsub.c
@@ -586,7 +586,7 @@ AV *rrr_perl5_message_get_position (HV *hv, UV pos) {
 	}
 
 	if (__rrr_perl5_message_type_to_sv(array_values, ctx, value) != 0) {
-		RRR_MSG_0("Warning: Conversion error in Perl5 get_position at array position %u\n", pos);
+		RRR_MSG_0("Warning: Conversion error in Perl5 get_position at array position %llu\n", (unsigned long long) pos);
 		ret = 1;
 		goto out;
 	}
diff --git a/src/lib/python3/python3_message.c b/src/lib/python3/python3_message.c
index 5d6df0d..d1f288b 100644
--- a/src/lib/python3/python3_message.c
+++ b/src/lib/python3/python3_message.c
@@ -1166,7 +1166,7 @@ static int __preliminary_check_stringish (PRELIMINARY_CHECK_DEF) {
 				ret = 1;
 				goto out;
 			}
-			replacement_subject = PyUnicode_FromFormat("%d", temp_d);
+			replacement_subject = PyObject_Str(subject);
 		}
 		else if (PyBool_Check(subject)) {
 			replacement_subject = PyUnicode_FromString(subject == Py_True ? "TRUE" : "FALSE");
diff --git a/src/modules/p_modbus.c b/src/modules/p_modbus.c
index 068f071..c9aaf04 100644
--- a/src/modules/p_modbus.c
+++ b/src/modules/p_modbus.c
@@ -1280,7 +1280,7 @@ static int modbus_poll_callback (RRR_MODULE_POLL_CALLBACK_SIGNATURE) {
 	}
 	else if (modbus_function == RRR_MODBUS_FUNCTION_CODE_16_WRITE_MULTIPLE_REGISTERS) {
 		if (!rrr_array_has_tag(&array, modbus_field_quantity)) {
-			RRR_MSG_0("Warning: Failed to get value of field 'modbus_quantity' of command message to modbus instance %s\n",
+			RRR_MSG_0("Warning: Failed to get value of field '%s' of command message to modbus instance %s\n",
 				modbus_field_quantity, INSTANCE_D_NAME(data->thread_data));
 			ret = 0;
 			goto drop;
diff --git a/src/rrr_logd.c b/src/rrr_logd.c
index 165ffb6..8c1b119 100644
--- a/src/rrr_logd.c
+++ b/src/rrr_logd.c
@@ -178,7 +178,7 @@ static int rrr_logd_parse_config (struct rrr_logd_data *data, struct cmd_data *c
 		for (cmd_arg_count i = 0; i < wrapper_count; i++) {
 			const char *str = cmd_get_value(cmd, "wrapper-and-args", i);
 			if ((data->wrapper[i] = rrr_strdup(str)) == NULL) {
-				RRR_MSG_0("Failed to allocate memory for wrapper argument in %s\n");
+				RRR_MSG_0("Failed to allocate memory for wrapper argument in %s\n", __func__);
 				return 1;
 			}
 		}
@@ -623,7 +623,7 @@ int main (int argc, const char **argv, const char **env) {
 			goto out_cleanup_pipe;
 		}
 
-		RRR_DBG_1("Output now redirected\n", pid);
+		RRR_DBG_1("Output now redirected to pid %i\n", pid);
 	}
 
 	RRR_DBG_1("RRR log deamon starting dispatch\n");
diff --git a/src/rrr_stats.c b/src/rrr_stats.c
index fe497cb..ce70536 100644
--- a/src/rrr_stats.c
+++ b/src/rrr_stats.c
@@ -280,7 +280,7 @@ static int __rrr_stats_parse_config (
 		const char *path = NULL;
 		if ((path = cmd_get_value(cmd, "socket", i)) != NULL) {
 			if (__rrr_stats_socket_prefix_register(data, path) != 0) {
-				RRR_MSG_0("Could not register socket prefix in $%s\n");
+				RRR_MSG_0("Could not register socket prefix in %s\n", __func__);
 				return 1;
 			}
 		}
-- 
2.43.0


From 2acbc81aced66bd4f4b2eca6764a12ba0500d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 067/103] fix: do not free array element or leave it in use
 when cmodule worker cannot be initialized

---
 src/lib/cmodule/cmodule_main.c   | 6 ++++--
 src/lib/cmodule/cmodule_worker.c | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lib/cmodule/cmodule_main.c b/src/lib/cmodule/cmodule_main.c
index 93a6f26..0c5b60b 100644
--- a/src/lib/cmodule/cmodule_main.c
+++ b/src/lib/cmodule/cmodule_main.c
@@ -142,7 +142,7 @@ int rrr_cmodule_main_worker_fork_start (
 	struct rrr_event_queue *worker_queue = NULL;
 	if ((ret = rrr_event_queue_new(&worker_queue)) != 0) {
 		RRR_MSG_0("Failed to create event queue in rrr_cmodule_main_worker_fork_start\n");
-		goto out_parent;
+		goto out_parent_release_worker;
 	}
 
 	if ((ret = rrr_cmodule_worker_init (
@@ -208,9 +208,11 @@ int rrr_cmodule_main_worker_fork_start (
 
 	out_parent_cleanup_worker:
 		rrr_cmodule_worker_cleanup(worker);
-		cmodule->worker_count--;
 	out_parent_destroy_event_queue:
 		rrr_event_queue_destroy(worker_queue);
+	out_parent_release_worker:
+		memset(worker, '\0', sizeof(*worker));
+		cmodule->worker_count--;
 	out_parent:
 		return ret;
 }
diff --git a/src/lib/cmodule/cmodule_worker.c b/src/lib/cmodule/cmodule_worker.c
index 076d8c0..60112ab 100644
--- a/src/lib/cmodule/cmodule_worker.c
+++ b/src/lib/cmodule/cmodule_worker.c
@@ -1232,7 +1232,7 @@ int rrr_cmodule_worker_init (
 
 	if ((ret = rrr_mmap_channel_new(&worker->channel_to_fork, to_fork_name)) != 0) {
 		RRR_MSG_0("Could not create mmap channel in %s\n", __func__);
-		goto out_free;
+		goto out;
 	}
 
 	if ((ret = rrr_mmap_channel_new(&worker->channel_to_parent, to_parent_name)) != 0) {
@@ -1295,6 +1295,8 @@ int rrr_cmodule_worker_init (
 
 	goto out;
 	out_destroy_settings:
+		rrr_mqtt_topic_token_destroy(worker->topic_filter);
+		RRR_FREE_IF_NOT_NULL(worker->topic_filter_str);
 		rrr_settings_destroy(worker->settings_parent);
 		rrr_settings_used_cleanup(&worker->settings_used_parent);
 		if (worker->settings_sub) {
@@ -1309,8 +1311,6 @@ int rrr_cmodule_worker_init (
 		rrr_mmap_channel_destroy(worker->channel_to_parent);
 	out_destroy_channel_to_fork:
 		rrr_mmap_channel_destroy(worker->channel_to_fork);
-	out_free:
-		rrr_free(worker);
 	out:
 		RRR_FREE_IF_NOT_NULL(to_fork_name);
 		RRR_FREE_IF_NOT_NULL(to_parent_name);
-- 
2.43.0


From 32a6a813471ac15e50620cd70bfc56872f72716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 068/103] fix: destroy split buffers along with message broker
 costumer

---
 src/lib/message_broker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/message_broker.c b/src/lib/message_broker.c
index e47b4e1..4f73bf6 100644
--- a/src/lib/message_broker.c
+++ b/src/lib/message_broker.c
@@ -228,6 +228,8 @@ static void __rrr_message_broker_costumer_destroy (
 		rrr_msg_holder_slot_destroy(costumer->slot);
 	}
 
+	RRR_LL_DESTROY(&costumer->split_buffers, struct rrr_message_broker_split_buffer_node, rrr_fifo_protected_destroy(&node->queue); rrr_free(node));
+
 	rrr_fifo_protected_destroy(&costumer->main_queue);
 	rrr_posix_mutex_robust_destroy(&costumer->split_buffers.lock);
 	// Do this at the end in case we need to read the name in a debugger
-- 
2.43.0


From 3c077d4b736e89ad1750df12c3929ff78a70fac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 069/103] fix: include endpoint when duplicating URI

---
 src/lib/http/http_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 571ec7f..cec7850 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -814,7 +814,7 @@ int rrr_http_util_uri_dup (
 		goto out_free;
 	}
 
-	if (uri_result->endpoint != NULL && (uri_result->endpoint = rrr_strdup(uri->endpoint)) == NULL) {
+	if (uri->endpoint != NULL && (uri_result->endpoint = rrr_strdup(uri->endpoint)) == NULL) {
 		RRR_MSG_0("Could not allocate memory for endpoint in %s\n", __func__);
 		ret = 1;
 		goto out_free;
-- 
2.43.0


From 76822437ffbfa42d4304b2f6e8f4ebef999e69ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 070/103] fix: reject message with topic length exceeding
 message size

---
 src/lib/messages/msg_msg.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/messages/msg_msg.c b/src/lib/messages/msg_msg.c
index 4d7e821..4be127d 100644
--- a/src/lib/messages/msg_msg.c
+++ b/src/lib/messages/msg_msg.c
@@ -252,11 +252,11 @@ int rrr_msg_msg_to_string (
 static int __message_validate (const struct rrr_msg_msg *message){
 	int ret = 0;
 
-	if (message->msg_size < sizeof(*message) - 1 ||
-			MSG_TOTAL_SIZE(message) != message->msg_size
+	if (message->msg_size < MSG_MIN_SIZE(message) ||
+			MSG_TOPIC_LENGTH(message) > message->msg_size - MSG_MIN_SIZE(message)
 	) {
-		RRR_DBG_1("Received a message in message_validate with invalid header size fields (%" PRIu32 " and %" PRIu32 ")\n",
-				message->msg_size, MSG_TOTAL_SIZE(message));
+		RRR_DBG_1("Received a message in message_validate with invalid header size fields (size %" PRIu32 " and topic length %u)\n",
+				message->msg_size, MSG_TOPIC_LENGTH(message));
 		ret = 1;
 		goto out;
 	}
-- 
2.43.0


From 72e2191766ea32b5150714723f6964326745476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 071/103] fix: underflow in size check of received log message

---
 src/lib/messages/msg_log.c | 5 +++++
 src/lib/messages/msg_log.h | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/messages/msg_log.c b/src/lib/messages/msg_log.c
index 9ade221..313034a 100644
--- a/src/lib/messages/msg_log.c
+++ b/src/lib/messages/msg_log.c
@@ -36,6 +36,11 @@ void rrr_msg_msg_log_prepare_for_network (struct rrr_msg_log *msg) {
 }
 
 int rrr_msg_msg_log_to_host (struct rrr_msg_log *msg) {
+	if (msg->msg_size < sizeof(*msg) - 1) {
+		RRR_MSG_0("Message was too short in rrr_msg_msg_log_to_host\n");
+		return 1;
+	}
+
 	msg->prefix_size = rrr_be16toh(msg->prefix_size);
 	msg->line = rrr_be32toh(msg->line);
 
diff --git a/src/lib/messages/msg_log.h b/src/lib/messages/msg_log.h
index b2733ee..b80a70c 100644
--- a/src/lib/messages/msg_log.h
+++ b/src/lib/messages/msg_log.h
@@ -35,7 +35,8 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 	((msg->prefix_and_message) + (msg)->prefix_size)
 
 #define RRR_MSG_LOG_SIZE_OK(msg)											\
-	((msg)->prefix_size > (msg)->msg_size - sizeof(*(msg)) - 1 ? 0 : 1)
+	((msg)->msg_size >= sizeof(*(msg)) - 1 &&                              \
+	 (msg)->prefix_size <= (msg)->msg_size - (sizeof(*(msg)) - 1))
 
 #define RRR_MSG_LOG_LEVEL_ORIG_NOT_GIVEN RRR_LOG_LEVEL_NOT_GIVEN
 
-- 
2.43.0


From 09ca93b00d368cefab15f237473c5aae728fe86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 072/103] fix: terminate truncated strings in log message

---
 src/lib/messages/msg_log.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/messages/msg_log.c b/src/lib/messages/msg_log.c
index 313034a..7ab2236 100644
--- a/src/lib/messages/msg_log.c
+++ b/src/lib/messages/msg_log.c
@@ -148,6 +148,10 @@ int rrr_msg_msg_log_new (
 	memcpy(result->prefix_and_message, prefix, prefix_size);
 	memcpy(RRR_MSG_LOG_MSG_POS(result), message, message_size);
 
+	// Terminate also if truncated
+	result->prefix_and_message[prefix_size - 1] = '\0';
+	RRR_MSG_LOG_MSG_POS(result)[message_size - 1] = '\0';
+
 	result->loglevel_translated = loglevel_translated;
 	result->loglevel_orig = loglevel_orig;
 
-- 
2.43.0


From 95f557e119008e658c3d9e0bac744fc8fe852c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:53 +0000
Subject: [PATCH 073/103] fix: reject address message with address exceeding
 its field

---
 src/lib/messages/msg_addr.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/messages/msg_addr.h b/src/lib/messages/msg_addr.h
index c4b1558..ff6aea8 100644
--- a/src/lib/messages/msg_addr.h
+++ b/src/lib/messages/msg_addr.h
@@ -36,7 +36,8 @@ struct rrr_msg_addr {
 } __attribute((__packed__));
 
 #define RRR_MSG_ADDR_SIZE_OK(msg) \
-	((msg)->msg_size >= sizeof(*(msg)) - sizeof ((msg)->addr))
+	((msg)->msg_size >= sizeof(*(msg)) - sizeof ((msg)->addr) && \
+	 (msg)->msg_size <= sizeof(*(msg)))
 
 // NOTE ! This will underflow and wrap around if msg_size is small. We only check for 0 here.
 #define RRR_MSG_ADDR_GET_ADDR_LEN(msg) \
-- 
2.43.0


From f606444a9089e1c6776b21035a630095444f1f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 074/103] fix: reject statistics message with path or data
 exceeding its field

---
 src/lib/stats/stats_message.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/stats/stats_message.c b/src/lib/stats/stats_message.c
index fb75af0..838b19f 100644
--- a/src/lib/stats/stats_message.c
+++ b/src/lib/stats/stats_message.c
@@ -93,6 +93,12 @@ static int __rrr_msg_stats_unpack (
 		goto out;
 	}
 
+	if (path_size > sizeof(target->path) || actual_path_and_data_size - path_size > sizeof(target->data)) {
+		RRR_MSG_0("Path or data in received statistics packet was too long\n");
+		ret = RRR_READ_SOFT_ERROR;
+		goto out;
+	}
+
 	memset (target, '\0', sizeof(*target));
 
 	target->flags = flags;
-- 
2.43.0


From b268cdb0c7dccec20be56734a9b3df5a21e6f752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:24 +0000
Subject: [PATCH 075/103] fix: overflow in length check when iterating array
 message

---
 src/lib/array.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/array.c b/src/lib/array.c
index b5c8fdc..728c519 100644
--- a/src/lib/array.c
+++ b/src/lib/array.c
@@ -1191,7 +1191,8 @@ int rrr_array_message_iterate (
 		rrr_length total_length = rrr_be32toh(data_packed->total_length);
 		rrr_length elements = rrr_be32toh(data_packed->elements);
 
-		if (pos + tag_length + total_length > end) {
+		// Sum of lengths may exceed their type
+		if ((rrr_biglength) tag_length + (rrr_biglength) total_length > (rrr_biglength) (end - pos)) {
 			RRR_MSG_0("Length of type %u index %i in array message exceeds total length (%u > %lli)\n",
 					type, i, total_length, (long long int) (end - pos));
 			ret = 1;
-- 
2.43.0


From 35e615dc4ac52871fc99c211315f47a27edbbaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:24 +0000
Subject: [PATCH 076/103] fix: read outside of received message which is
 shorter than its head

---
 src/lib/messages/msg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/messages/msg.c b/src/lib/messages/msg.c
index 0abf4e2..abe112f 100644
--- a/src/lib/messages/msg.c
+++ b/src/lib/messages/msg.c
@@ -108,6 +108,12 @@ int rrr_msg_head_to_host_and_verify (
 		struct rrr_msg *message,
 		rrr_length expected_size
 ) {
+	if (expected_size < sizeof(*message)) {
+		RRR_MSG_0("Received socket message was too short in %s (%" PRIrrrl ")\n",
+				__func__, expected_size);
+		return 1;
+	}
+
 	message->header_crc32 = 0;
 	message->data_crc32 = rrr_be32toh(message->data_crc32);
 	message->msg_type = rrr_be16toh(message->msg_type);
-- 
2.43.0


From a1a5b15c0c2c75f284d26bba2c230869fc03492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:11 +0000
Subject: [PATCH 077/103] fix: verify element count of values unpacked from
 array messages

---
 src/lib/type.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lib/type.c b/src/lib/type.c
index 11a58fc..f06fee3 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -716,6 +716,11 @@ static int __rrr_type_64_unpack (RRR_TYPE_UNPACK_ARGS, uint8_t target_type) {
 	}
 
 	rrr_length array_size = node->total_stored_length / sizeof(rrr_type_be);
+	if (array_size == 0 || array_size != node->element_count) {
+		RRR_MSG_0("Size of 64 type did not match element count in %s\n", __func__);
+		return 1;
+	}
+
 	const char *pos = node->data;
 	for (unsigned int i = 0; i < array_size; i++) {
 		rrr_type_be tmp = *((rrr_type_be *) pos);
@@ -1559,6 +1564,17 @@ int rrr_type_value_new_and_unpack (
 
 	struct rrr_type_value *value = NULL;
 
+	if (element_count == 0 && total_length == 0 && type->type == RRR_TYPE_VAIN) {
+		element_count = 1;
+	}
+
+	if (element_count == 0 || total_length % element_count != 0) {
+		RRR_MSG_0("Invalid element count %" PRIrrrl " for size %" PRIrrrl " of type %s in %s\n",
+			element_count, total_length, type->identifier, __func__);
+		ret = 1;
+		goto out;
+	}
+
 	if ((ret = rrr_type_value_new (
 			&value,
 			type,
@@ -1606,7 +1622,7 @@ int rrr_type_value_new_simple (
 		rrr_length tag_length,
 		const char *tag
 ) {
-	return rrr_type_value_new (result, type, flags, tag_length, tag, 0, NULL, 0, NULL, 0);
+	return rrr_type_value_new (result, type, flags, tag_length, tag, 0, NULL, 1, NULL, 0);
 }
 
 int rrr_type_new_vain (
-- 
2.43.0


From f248fdf1d0b439a3628fccec96bb45e91d4dc6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 078/103] fix: reject empty messages in array values

---
 src/lib/type.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib/type.c b/src/lib/type.c
index f06fee3..a8f3bc3 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -565,6 +565,12 @@ static int __rrr_type_msg_unpack (RRR_TYPE_UNPACK_ARGS) {
 		count++;
 	}
 
+	if (count == 0) {
+		RRR_MSG_0("No message present in %s\n", __func__);
+		ret = RRR_TYPE_PARSE_SOFT_ERR;
+		goto out;
+	}
+
 	node->element_count = count;
 
 	out:
@@ -607,6 +613,12 @@ static int __rrr_type_import_msg (RRR_TYPE_IMPORT_ARGS) {
 			}
 		}
 
+		if (target_size < sizeof (struct rrr_msg_msg) - 1) {
+			RRR_MSG_0("Invalid size in header for message in %s\n", __func__);
+			ret = RRR_TYPE_PARSE_SOFT_ERR;
+			goto out;
+		}
+
 		RRR_TYPES_CHECKED_LENGTH_COUNTER_ADD(target_size_total,target_size);
 
 		if (target_size_total > size_total) {
-- 
2.43.0


From 8619390b273b41d8f508691c0cf204fdaaa6b3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 079/103] fix: pointer overflow in HTTP chunk length check

---
 src/lib/http/http_part_parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index dd6f580..97f4627 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -378,7 +378,7 @@ static int __rrr_http_part_parse_chunk (
 	rrr_biglength parsed_bytes_previous_chunk = 0;
 
 	if (last_chunk != NULL) {
-		if (buf + last_chunk->start + last_chunk->length > end) {
+		if (last_chunk->length > rrr_biglength_from_ptr_sub_bug_const (end, buf) - last_chunk->start) {
 			// Need to read more
 			ret = RRR_HTTP_PARSE_INCOMPLETE;
 			goto out;
-- 
2.43.0


From abea075fbc0e11417fc512cc8912d3e3a6104b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 080/103] fix: overflow in target size calculation with HTTP
 content length

---
 src/lib/http/http_part_parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index 97f4627..fcdbf9d 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -706,6 +706,12 @@ int rrr_http_part_parse (
 		part->data_length = content_length->value_unsigned;
 		*target_size = part->headroom_length + part->header_length + content_length->value_unsigned;
 
+		if (*target_size < content_length->value_unsigned) {
+			RRR_MSG_0("Overflow in HTTP 'Content-Length', value was %llu\n", content_length->value_unsigned);
+			ret = RRR_HTTP_PARSE_SOFT_ERR;
+			goto out;
+		}
+
 		RRR_DBG_3("HTTP 'Content-Length' found in response: %llu (plus response %" PRIrrrbl " and header %" PRIrrrbl ") target size is %" PRIrrrbl "\n",
 				content_length->value_unsigned, part->headroom_length, part->header_length, *target_size);
 
-- 
2.43.0


From 03e53298c901295742ee3bb040e5b6d27dc26543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 081/103] fix: hard error upon invalid HTTP chunk header from
 remote

---
 src/lib/http/http_part_parse.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index fcdbf9d..d93a9cb 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -422,7 +422,6 @@ static int __rrr_http_part_parse_chunk (
 	}
 	else {
 		RRR_MSG_0("Error while parsing last_chunk header in rrr_http_part_parse\n");
-		ret = RRR_HTTP_PARSE_HARD_ERR;
 		goto out;
 	}
 
-- 
2.43.0


From fe19b988ed6d51f8b4390f5279198038c00f6c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 082/103] fix: overflow in length check of received websocket
 frame

---
 src/lib/websocket/websocket.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index 3a99193..470f005 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -358,15 +358,16 @@ int __rrr_websocket_get_target_size (
 		header_new.masking_key = rrr_be32toh(*((uint32_t *) pos));
 	}
 
-	rrr_biglength target_len = header_new.header_len + header_new.payload_len;
-
-	if (target_len > (rrr_biglength) SSIZE_MAX) {
-		RRR_MSG_0("Total specified length og websocket frame was too big (%" PRIrrrbl ">%lli)\n",
-				target_len, (long long int) SSIZE_MAX);
+	// Sum of lengths may exceed the type
+	if (header_new.payload_len > (rrr_biglength) SSIZE_MAX - header_new.header_len) {
+		RRR_MSG_0("Total specified length og websocket frame was too big (%" PRIu64 ">%lli)\n",
+				header_new.payload_len, (long long int) SSIZE_MAX);
 		ret = RRR_READ_SOFT_ERROR;
 		goto out;
 	}
 
+	const rrr_biglength target_len = header_new.header_len + header_new.payload_len;
+
 	callback_data->ws_state->last_receive_time = rrr_time_get_64();
 	callback_data->ws_state->receive_state.header = header_new;
 	read_session->target_size = target_len;
-- 
2.43.0


From a62b28b0a15d6ff60e150d7908197c79619c1f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 083/103] fix: reject received websocket frame with reserved
 bits set

---
 src/lib/websocket/websocket.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index 470f005..6a88c91 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -335,6 +335,12 @@ int __rrr_websocket_get_target_size (
 	flags >>= 1;
 	header_new.fin = flags & 1;
 
+	if (header_new.rsv1 || header_new.rsv2 || header_new.rsv3) {
+		RRR_MSG_0("Reserved bits were set in received websocket frame and no extension is in use\n");
+		ret = RRR_READ_SOFT_ERROR;
+		goto out;
+	}
+
 	if (payload_len == 126) {
 		const char *pos = read_session->rx_buf_ptr + header_new.header_len;
 		INC_LENGTH(2);
-- 
2.43.0


From 7c0c62587c3f742764374992098404e660e01111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 084/103] fix: truncation of pointer differences above 4 GB

---
 src/lib/rrr_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rrr_types.h b/src/lib/rrr_types.h
index 988bf0c..e82e064 100644
--- a/src/lib/rrr_types.h
+++ b/src/lib/rrr_types.h
@@ -392,7 +392,7 @@ static inline rrr_biglength rrr_biglength_from_ptr_sub_bug_const (const void *a,
 		RRR_BUG("Underflow in rrr_biglength_from_ptr_sub_bug_const\n");
 	}
 	uintptr_t r = (uintptr_t) a - (uintptr_t) b;
-	return (rrr_length) r;
+	return (rrr_biglength) r;
 }
 
 static inline void rrr_length_dec_bug (rrr_length *a) {
-- 
2.43.0


From b409a033dc7478acacc4c0593cb1cea1747d2e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 085/103] fix: success returned for HTTP chunk header parsing
 without a chunk

---
 src/lib/http/http_part_parse.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index d93a9cb..7014c0b 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -398,16 +398,17 @@ static int __rrr_http_part_parse_chunk (
 			buf,
 			start_pos + parsed_bytes_previous_chunk,
 			end
-	)) == 0 && new_chunk != NULL) { // != NULL check due to false positive warning about use of NULL from scan-build
+	)) == 0) {
+		if (new_chunk == NULL) {
+			RRR_BUG("Bug last_chunk was not set but return from __rrr_http_part_parse_chunk_header was OK in rrr_http_part_parse\n");
+		}
+
 		RRR_DBG_3("Found new HTTP chunk start %" PRIrrrbl " length %" PRIrrrbl "\n", new_chunk->start, new_chunk->length);
 		RRR_LL_APPEND(chunks, new_chunk);
 
 		// All of the bytes in the previous chunk (if any) have been read
 		parsed_bytes_total += parsed_bytes_previous_chunk;
 
-		if (new_chunk == NULL) {
-			RRR_BUG("Bug last_chunk was not set but return from __rrr_http_part_parse_chunk_header was OK in rrr_http_part_parse\n");
-		}
 		if (new_chunk->length == 0) {
 			// Last last_chunk
 			ret = RRR_HTTP_PARSE_OK;
-- 
2.43.0


From 6ef3f08a8f66f85f5df1e75e5a1413c4c218b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 086/103] fix: data length of merged HTTP chunks includes
 length of header

---
 src/lib/http/http_part.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_part.c b/src/lib/http/http_part.c
index 5f1b972..5cf647c 100644
--- a/src/lib/http/http_part.c
+++ b/src/lib/http/http_part.c
@@ -759,7 +759,7 @@ int rrr_http_part_chunks_merge (
 	RRR_LL_ITERATE_END_CHECK_DESTROY(&part->chunks, 0; rrr_free(node));
 
 	part->is_chunked = 0;
-	part->data_length = wpos;
+	part->data_length = wpos - top_length;
 
 	*result_data = data_new;
 	data_new = NULL;
-- 
2.43.0


From d01a229d64324132c2a64375e60eed73588cdd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 087/103] fix: percent sequence with single digit accepted in
 HTTP field

---
 src/lib/http/http_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index cec7850..1399330 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -270,7 +270,7 @@ static int __rrr_http_util_decode_urlencoded_string (
 			unsigned long long int result = 0;
 
 			rrr_length result_len = 0;
-			if (rrr_http_util_strtoull_raw (&result, &result_len, (const char *) start + 1, (const char *) start + 3, 16) != 0) {
+			if (rrr_http_util_strtoull_raw (&result, &result_len, (const char *) start + 1, (const char *) start + 3, 16) != 0 || result_len != 2) {
 				if (RRR_DEBUGLEVEL_3) {
 					RRR_MSG_3("Invalid %%-sequence in urlencoded string\n");
 					rrr_http_util_print_where_message((const char *) start, (const char *) end);
-- 
2.43.0


From 20b5b8ca1731e2c2b8abef2815809a54bb4fd822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 088/103] fix: too big numbers accepted in HTTP data

---
 src/lib/http/http_util.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 1399330..bd28213 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -19,6 +19,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
 */
 
+#include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
@@ -658,12 +659,18 @@ int rrr_http_util_strtoull_raw (
 	buf[numbers_end - start] = '\0';
 
 	char *endptr;
+	errno = 0;
 	unsigned long long int number = strtoull(buf, &endptr, base);
 
 	if (endptr == NULL) {
 		RRR_BUG("Endpointer was NULL in %s\n", __func__);
 	}
 
+	if (errno == ERANGE) {
+		RRR_DBG_3("Number was too big in %s\n", __func__);
+		return 1;
+	}
+
 	rrr_biglength result_tmp = rrr_length_from_ptr_sub_bug_const(endptr, buf);
 	RRR_TYPES_BUG_IF_LENGTH_EXCEEDED(result_tmp, "rrr_http_util_strtoull_raw");
 
-- 
2.43.0


From e08e9d4e88576d7fb965cb2705a4ac201e2fd55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 089/103] fix: partial match at the end reported as found in
 HTTP string search

---
 src/lib/http/http_util.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index bd28213..2673620 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -765,6 +765,12 @@ int rrr_http_util_strcasestr (
 		}
 	}
 
+	// Only the first part of the needle was found at the end
+	if (needle_pos != needle_end) {
+		result = NULL;
+		len = 0;
+	}
+
 	*result_start = result;
 	*result_len = len;
 
-- 
2.43.0


From 09320f4a987f7385e7ed981789eb788fb54ed5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 090/103] fix: underflow of length of HTTP multipart part
 without CRLF before boundary

---
 src/lib/http/http_part_multipart.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/http/http_part_multipart.c b/src/lib/http/http_part_multipart.c
index 3e06466..fb4d30e 100644
--- a/src/lib/http/http_part_multipart.c
+++ b/src/lib/http/http_part_multipart.c
@@ -170,6 +170,12 @@ static int __rrr_http_part_multipart_process_part_callback (
 		RRR_DBG_3("Invalid header specification in HTTP multipart request part header\n");
 	}
 
+	if (new_part->header_length + 2 > find_end_callback_data.part_length) {
+		RRR_DBG_3("Missing CRLF after data while parsing HTTP multipart request\n");
+		ret = RRR_HTTP_PARSE_SOFT_ERR;
+		goto out;
+	}
+
 	new_part->headroom_length = rrr_nullsafe_str_len(haystack_orig) - rrr_nullsafe_str_len(pos_after_needle);
 	new_part->data_length = find_end_callback_data.part_length - new_part->header_length - 2; // Subtract one CRLF
 
-- 
2.43.0


From 0b0d1064bdda42880e501fa026689294cfd799dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 091/103] fix: unbounded recursion when parsing nested HTTP
 multipart parts

---
 src/lib/http/http_part_multipart.c | 32 +++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/lib/http/http_part_multipart.c b/src/lib/http/http_part_multipart.c
index fb4d30e..fc1cf30 100644
--- a/src/lib/http/http_part_multipart.c
+++ b/src/lib/http/http_part_multipart.c
@@ -33,6 +33,8 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 #include "../util/gnu.h"
 #include "../helpers/nullsafe_str.h"
 
+#define RRR_HTTP_PART_MULTIPART_DEPTH_MAX 10
+
 struct rrr_http_part_multipart_process_part_find_end_callback_data {
 	rrr_length part_length;
 };
@@ -65,11 +67,18 @@ static int __rrr_http_part_multipart_process_part_find_end_callback (
 struct rrr_http_part_multipart_process_part_callback_data {
 	struct rrr_http_part *parent;
 	rrr_length max_parts;
+	rrr_length depth;
 	rrr_biglength *parsed_bytes;
 	const struct rrr_nullsafe_str *boundary_with_dashes_end;
 	const char *data_ptr;
 };
 
+static int __rrr_http_part_multipart_process (
+		struct rrr_http_part *part,
+		const char *data_ptr,
+		rrr_length depth
+);
+
 static int __rrr_http_part_multipart_process_part_callback (
 		const struct rrr_nullsafe_str *haystack_orig,
 		const struct rrr_nullsafe_str *needle_orig,
@@ -183,7 +192,7 @@ static int __rrr_http_part_multipart_process_part_callback (
 		rrr_http_part_header_dump(new_part);
 	}
 
-	if ((ret = rrr_http_part_multipart_process(new_part, callback_data->data_ptr)) != 0) {
+	if ((ret = __rrr_http_part_multipart_process(new_part, callback_data->data_ptr, callback_data->depth + 1)) != 0) {
 		if (ret == RRR_HTTP_PARSE_HARD_ERR) {
 			RRR_MSG_0("Error while processing sub-multipart in HTTP multipart request\n");
 		}
@@ -210,6 +219,7 @@ static int __rrr_http_part_multipart_process_part_callback (
 static int __rrr_http_part_multipart_process_parts (
 		struct rrr_http_part *parent,
 		rrr_length max_parts,
+		rrr_length depth,
 		rrr_biglength *parsed_bytes,
 		const char * const start,
 		const char * const end,
@@ -260,6 +270,7 @@ static int __rrr_http_part_multipart_process_parts (
 	struct rrr_http_part_multipart_process_part_callback_data callback_data = {
 			parent,
 			max_parts,
+			depth,
 			parsed_bytes,
 			boundary_with_dashes_end,
 			start
@@ -284,9 +295,10 @@ static int __rrr_http_part_multipart_process_parts (
 		return ret;
 }
 
-int rrr_http_part_multipart_process (
+static int __rrr_http_part_multipart_process (
 		struct rrr_http_part *part,
-		const char *data_ptr
+		const char *data_ptr,
+		rrr_length depth
 ) {
 	int ret = RRR_HTTP_PARSE_OK;
 
@@ -300,6 +312,12 @@ int rrr_http_part_multipart_process (
 		goto out;
 	}
 
+	if (depth > RRR_HTTP_PART_MULTIPART_DEPTH_MAX) {
+		RRR_DBG_3("Too many levels of multipart inside multipart in HTTP request\n");
+		ret = RRR_HTTP_PARSE_SOFT_ERR;
+		goto out;
+	}
+
 	const struct rrr_http_field *boundary = __rrr_http_part_header_field_subvalue_get(part, "content-type", "boundary");
 	if (boundary == NULL || !rrr_nullsafe_str_isset(boundary->value)) {
 		RRR_DBG_3("No multipart boundary found in content-type of HTTP header\n");
@@ -318,6 +336,7 @@ int rrr_http_part_multipart_process (
 	if ((ret = (__rrr_http_part_multipart_process_parts (
 			part,
 			1000, // Max parts
+			depth,
 			&parsed_bytes_tmp,
 			data_ptr,
 			data_end,
@@ -340,6 +359,13 @@ int rrr_http_part_multipart_process (
 	return ret;
 }
 
+int rrr_http_part_multipart_process (
+		struct rrr_http_part *part,
+		const char *data_ptr
+) {
+	return __rrr_http_part_multipart_process (part, data_ptr, 0);
+}
+
 struct rrr_http_part_multipart_form_data_make_field_callback_data {
 		int is_first;
 		const char *boundary;
-- 
2.43.0


From a36ec6a3eda776894a0f3c0951c89fe4aef2f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 092/103] fix: check will topic in MQTT CONNECT against access
 list

---
 src/lib/mqtt/mqtt_broker.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index 42732dd..b22f6b1 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -363,11 +363,13 @@ static int __rrr_mqtt_broker_new_will_publish (
 
 static int __rrr_mqtt_broker_handle_connect_will (
 		uint8_t *reason_v5,
-		struct rrr_mqtt_data *mqtt_data,
+		struct rrr_mqtt_broker_data *broker,
 		const char *client_id,
 		const struct rrr_mqtt_p_connect *connect,
 		struct rrr_mqtt_session **session_handle
 ) {
+	struct rrr_mqtt_data *mqtt_data = &broker->mqtt_data;
+
 	int ret = RRR_MQTT_OK;
 
 	struct rrr_mqtt_p_publish *publish = NULL;
@@ -388,6 +390,20 @@ static int __rrr_mqtt_broker_handle_connect_will (
 			}
 			goto out;
 		}
+
+		// Same rules as for PUBLISH packets from the client
+		if (rrr_mqtt_acl_check_access (
+				broker->acl,
+				publish->token_tree_,
+				RRR_MQTT_ACL_ACTION_RW,
+				connect->username,
+				rrr_mqtt_topic_match_tokens_recursively
+		) != RRR_MQTT_ACL_RESULT_ALLOW) {
+			RRR_DBG_2("ACL: Will topic '%s' for client '%s' denied\n", publish->topic, client_id);
+			*reason_v5 = RRR_MQTT_P_5_REASON_NOT_AUTHORIZED;
+			ret = RRR_MQTT_SOFT_ERROR;
+			goto out;
+		}
 	}
 
 	// Passing NULL publish will clear any existing message
@@ -755,7 +771,7 @@ static int __rrr_mqtt_broker_handle_connect (RRR_MQTT_TYPE_HANDLER_DEFINITION) {
 	}
 
 	// Handle will from connect
-	if ((ret = __rrr_mqtt_broker_handle_connect_will(&reason_v5, mqtt_data, connection->client_id, connect, &session)) != 0) {
+	if ((ret = __rrr_mqtt_broker_handle_connect_will(&reason_v5, data, connection->client_id, connect, &session)) != 0) {
 		if (ret == RRR_MQTT_SOFT_ERROR) {
 			goto out_send_connack;
 		}
-- 
2.43.0


From 92107accc8ebfd2d6e7fa3106aa1f87e6bcf3407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 093/103] fix: verify length of password hash before comparing
 it

---
 src/lib/passwd.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/passwd.c b/src/lib/passwd.c
index c3837c8..cc4011a 100644
--- a/src/lib/passwd.c
+++ b/src/lib/passwd.c
@@ -264,6 +264,11 @@ static int __rrr_passwd_check_openssl (
 		goto out;
 	}
 
+	if (hash_raw_length != RRR_PASSWD_HASH_KEY_LENGTH) {
+		RRR_MSG_0("Wrong length of hash in __rrr_passwd_check_openssl\n");
+		goto out;
+	}
+
 	if (__rrr_passwd_openssl_encrypt(tmp, password, (const unsigned char *) salt) != 0) {
 		goto out;
 	}
-- 
2.43.0


From dd41e1d0332d9ab2311b8214d8a1a6539c217717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 094/103] fix: compare the whole password hash and not only a
 prefix of it

---
 src/lib/passwd.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/passwd.c b/src/lib/passwd.c
index cc4011a..8b211e8 100644
--- a/src/lib/passwd.c
+++ b/src/lib/passwd.c
@@ -165,7 +165,12 @@ static int __rrr_passwd_check_base64 (
 		goto out;
 	}
 
-	if (memcmp(hash, base64_tmp, strlen(hash)) == 0) {
+	// The encoder adds a newline which is not present in the hash
+	if (base64_tmp_length > 0 && base64_tmp[base64_tmp_length - 1] == '\n') {
+		base64_tmp[base64_tmp_length - 1] = '\0';
+	}
+
+	if (strcmp(hash, (const char *) base64_tmp) == 0) {
 		ret = 0; // Authenticated
 	}
 	else {
-- 
2.43.0


From c4fd56009330f361af754a70f16b6afd575747d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 095/103] fix: use TLS in influxdb module when this is
 configured

---
 src/modules/p_influxdb.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modules/p_influxdb.c b/src/modules/p_influxdb.c
index 853dfcb..9378198 100644
--- a/src/modules/p_influxdb.c
+++ b/src/modules/p_influxdb.c
@@ -596,6 +596,12 @@ static int influxdb_parse_config (struct influxdb_data *data, struct rrr_instanc
 		ret = 1;
 	}
 
+#if defined(RRR_WITH_OPENSSL) || defined(RRR_WITH_LIBRESSL)
+	if (data->net_transport_config.transport_type_f & RRR_NET_TRANSPORT_F_TLS) {
+		data->net_transport_config.transport_type_p = RRR_NET_TRANSPORT_TLS;
+	}
+#endif
+
 	/* On error, memory is freed by data_cleanup */
 
 	return ret;
-- 
2.43.0


From a252a2be873c1a406c3703ac2844ccbe65c4e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 096/103] fix: do not forget failure to add a subscription when
 it is copied

---
 src/lib/mqtt/mqtt_subscription.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_subscription.c b/src/lib/mqtt/mqtt_subscription.c
index bc4460e..1abfafe 100644
--- a/src/lib/mqtt/mqtt_subscription.c
+++ b/src/lib/mqtt/mqtt_subscription.c
@@ -615,7 +615,7 @@ int rrr_mqtt_subscription_collection_append_unique_copy_from_collection (
 		ret = rrr_mqtt_subscription_collection_add_unique(target, &subscription_tmp, 1);
 		rrr_mqtt_subscription_destroy(subscription_tmp); // Destroy function checks for NULL
 
-		if ((ret & RRR_MQTT_SUBSCRIPTION_REPLACED) == 0) {
+		if (ret == RRR_MQTT_SUBSCRIPTION_OK) {
 			if (new_subscrition_callback != NULL) {
 				ret = new_subscrition_callback(node, new_subscrition_callback_arg);
 			}
-- 
2.43.0


From 43752c7306094fab588c57e3827b887ae5da8e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:13 +0000
Subject: [PATCH 097/103] fix: string released when its replacement fails while
 still referred to

---
 src/lib/helpers/nullsafe_str.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/helpers/nullsafe_str.c b/src/lib/helpers/nullsafe_str.c
index 1611976..a41b584 100644
--- a/src/lib/helpers/nullsafe_str.c
+++ b/src/lib/helpers/nullsafe_str.c
@@ -110,7 +110,10 @@ int rrr_nullsafe_str_new_or_replace_raw (
 
 	goto out;
 	out_free:
-		rrr_free(new_str);
+		// An existing string which could not be replaced is left empty
+		if (new_str != *result) {
+			rrr_free(new_str);
+		}
 	out:
 		return ret;
 }
-- 
2.43.0


From 1016543b48a0e8ca2c225a7fe9364f4a5e47999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:13 +0000
Subject: [PATCH 098/103] fix: readers of slot released twice after allocation
 failure

---
 src/lib/message_holder/message_holder_slot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/message_holder/message_holder_slot.c b/src/lib/message_holder/message_holder_slot.c
index 62ac996..ca9aa28 100644
--- a/src/lib/message_holder/message_holder_slot.c
+++ b/src/lib/message_holder/message_holder_slot.c
@@ -121,7 +121,7 @@ int rrr_msg_holder_slot_reader_count_set (
 
 	goto out;
 	out_free_readers:
-		rrr_free(slot->readers);
+		RRR_FREE_IF_NOT_NULL(slot->readers);
 	out:
 		pthread_mutex_unlock(&slot->lock);
 		return ret;
-- 
2.43.0


From 07adcabcb29f06122c0fb6e0b7823335a79dc395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:13 +0000
Subject: [PATCH 099/103] fix: destroyed HTTP2 application given to caller when
 settings cannot be submitted

---
 src/lib/http/http_application_http2.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/http/http_application_http2.c b/src/lib/http/http_application_http2.c
index 5431114..9e243c7 100644
--- a/src/lib/http/http_application_http2.c
+++ b/src/lib/http/http_application_http2.c
@@ -692,6 +692,7 @@ int rrr_http_application_http2_new (
 	goto out;
 	out_destroy:
 		__rrr_http_application_http2_destroy(*target);
+		*target = NULL;
 	out:
 		return ret;
 }
-- 
2.43.0


From e8d3f54509d369611306235f16b42e5323b1c182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 100/103] fix: http: answer of request send possible not set
 without application

---
 src/lib/http/http_session.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/http/http_session.c b/src/lib/http/http_session.c
index 97adc1a..e576e05 100644
--- a/src/lib/http/http_session.c
+++ b/src/lib/http/http_session.c
@@ -204,6 +204,7 @@ int rrr_http_session_transport_ctx_request_send_possible (
 
 	if (session == NULL) {
 		// OK, no application created yet (hence it can't be busy)
+		*is_possible = 1;
 		return 0;
 	}
 
-- 
2.43.0


From 45de29d938398a70d467e9ba6022edc4c5c463bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 101/103] fix: discern stack: fault not set when stack cannot
 be allocated

---
 src/lib/discern_stack.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/discern_stack.c b/src/lib/discern_stack.c
index 7877408..29ae61c 100644
--- a/src/lib/discern_stack.c
+++ b/src/lib/discern_stack.c
@@ -1190,6 +1190,7 @@ int rrr_discern_stack_interpret (
 	struct rrr_discern_stack *discern_stack = NULL;
 
 	if ((ret = __rrr_discern_stack_new(&discern_stack, name)) != 0) {
+		*fault = RRR_DISCERN_STACK_FAULT_CRITICAL;
 		goto out;
 	}
 
-- 
2.43.0


From f31cd5e8c8817d2e8a2753ea6dd2e3a2bc254a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 102/103] fix: modbus server: consumed bytes not set for
 exception responses

---
 src/rrr_modbus_server.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rrr_modbus_server.c b/src/rrr_modbus_server.c
index cd00a78..4bd2b27 100644
--- a/src/rrr_modbus_server.c
+++ b/src/rrr_modbus_server.c
@@ -196,6 +196,7 @@ static int __make_response (
 		dst_buf[7] += 0x80;
 		dst_buf[8] = (char) exception;
 		*dst_buf_size = 9;
+		*bytes_consumed = (size_t) length + 6;
 	out:
 		return ret;
 }
-- 
2.43.0


From 4f454176b02dbea23340d9fb9dbdfb189197084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:20 +0000
Subject: [PATCH 103/103] fix: MQTT broker rejects client identifiers with
 reserved prefix

The returned session was never checked, only the pointer to it, and clients could hence choose an identifier reserved for assignment by the broker.
---
 src/lib/mqtt/mqtt_broker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index b22f6b1..27a4f22 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -494,7 +494,7 @@ static int __rrr_mqtt_broker_handle_connect_check_client_identifier (
 				ret = RRR_MQTT_SESSION_INTERNAL_ERROR;
 				goto out;
 			}
-			if (session == NULL) {
+			if (*session == NULL) {
 				RRR_DBG_2("Client ID cannot begin with '" RRR_MQTT_BROKER_CLIENT_PREFIX "' unless a session with such name already exists\n");
 				*reason_v5 = RRR_MQTT_P_5_REASON_CLIENT_ID_REJECTED;
 				goto out;
-- 
2.43.0

