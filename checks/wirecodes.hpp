// the wire codes of the commands (stable across versions and platforms) and their text names
#pragma once
struct WireCode {
    int value;
    const char* id;
    const char* text;
    helics::action_message_def::action_t code;
};
static const WireCode wireCodes[] = {
    {-3, "cmd_priority_disconnect", "priority_disconnect", helics::action_message_def::action_t::cmd_priority_disconnect},
    {-25, "cmd_fed_ack", "fed_ack", helics::action_message_def::action_t::cmd_fed_ack},
    {-27, "cmd_broker_ack", "broker_ack", helics::action_message_def::action_t::cmd_broker_ack},
    {-32, "cmd_add_route", "add_route", helics::action_message_def::action_t::cmd_add_route},
    {-16, "cmd_route_ack", "route_ack", helics::action_message_def::action_t::cmd_route_ack},
    {-15, "cmd_register_route", "register_route", helics::action_message_def::action_t::cmd_register_route},
    {-105, "cmd_reg_fed", "reg_fed", helics::action_message_def::action_t::cmd_reg_fed},
    {-254, "cmd_priority_ack", "priority_ack", helics::action_message_def::action_t::cmd_priority_ack},
    {-268435493, "cmd_query", "query", helics::action_message_def::action_t::cmd_query},
    {937, "cmd_query_ordered", "", helics::action_message_def::action_t::cmd_query_ordered},
    {-268435511, "cmd_set_global", "", helics::action_message_def::action_t::cmd_set_global},
    {-37, "cmd_broker_query", "", helics::action_message_def::action_t::cmd_broker_query},
    {-39, "cmd_interface_query", "", helics::action_message_def::action_t::cmd_interface_query},
    {939, "cmd_broker_query_ordered", "", helics::action_message_def::action_t::cmd_broker_query_ordered},
    {-268435494, "cmd_query_reply", "query_reply", helics::action_message_def::action_t::cmd_query_reply},
    {942, "cmd_query_reply_ordered", "", helics::action_message_def::action_t::cmd_query_reply_ordered},
    {-268435496, "cmd_reg_broker", "reg_broker", helics::action_message_def::action_t::cmd_reg_broker},
    {268435399, "cmd_broker_location", "", helics::action_message_def::action_t::cmd_broker_location},
    {-95, "cmd_send_command", "", helics::action_message_def::action_t::cmd_send_command},
    {-98, "cmd_command_response", "", helics::action_message_def::action_t::cmd_command_response},
    {95, "cmd_send_command_ordered", "", helics::action_message_def::action_t::cmd_send_command_ordered},
    {98, "cmd_command_response_ordered", "", helics::action_message_def::action_t::cmd_command_response_ordered},
    {-1, "cmd_broker_setup", "", helics::action_message_def::action_t::cmd_broker_setup},
    {0, "cmd_ignore", "ignore", helics::action_message_def::action_t::cmd_ignore},
    {1, "cmd_tick", "tick", helics::action_message_def::action_t::cmd_tick},
    {2, "cmd_user_disconnect", "disconnect from user", helics::action_message_def::action_t::cmd_user_disconnect},
    {3, "cmd_disconnect", "disconnect", helics::action_message_def::action_t::cmd_disconnect},
    {4, "cmd_disconnect_name", "disconnect by name", helics::action_message_def::action_t::cmd_disconnect_name},
    {5, "cmd_disconnect_check", "", helics::action_message_def::action_t::cmd_disconnect_check},
    {6, "cmd_disconnect_fed", "disconnect_fed", helics::action_message_def::action_t::cmd_disconnect_fed},
    {7, "cmd_broadcast_disconnect", "broadcast disconnect", helics::action_message_def::action_t::cmd_broadcast_disconnect},
    {8, "cmd_disconnect_core", "disconnect_core", helics::action_message_def::action_t::cmd_disconnect_core},
    {9, "cmd_disconnect_broker", "disconnect_broker", helics::action_message_def::action_t::cmd_disconnect_broker},
    {1002, "cmd_global_disconnect", "", helics::action_message_def::action_t::cmd_global_disconnect},
    {1003, "cmd_timeout_disconnect", "", helics::action_message_def::action_t::cmd_timeout_disconnect},
    {1006, "cmd_disconnect_fed_ack", "disconnect fed acknowledge", helics::action_message_def::action_t::cmd_disconnect_fed_ack},
    {1008, "cmd_disconnect_core_ack", "disconnect core acknowledge", helics::action_message_def::action_t::cmd_disconnect_core_ack},
    {1009, "cmd_disconnect_broker_ack", "disconnect broker acknowledge", helics::action_message_def::action_t::cmd_disconnect_broker_ack},
    {297, "cmd_check_connections", "", helics::action_message_def::action_t::cmd_check_connections},
    {298, "cmd_ping", "ping", helics::action_message_def::action_t::cmd_ping},
    {-298, "cmd_ping_priority", "", helics::action_message_def::action_t::cmd_ping_priority},
    {299, "cmd_ping_reply", "ping reply", helics::action_message_def::action_t::cmd_ping_reply},
    {306, "cmd_broker_ping", "", helics::action_message_def::action_t::cmd_broker_ping},
    {10, "cmd_init", "init", helics::action_message_def::action_t::cmd_init},
    {11, "cmd_init_grant", "init_grant", helics::action_message_def::action_t::cmd_init_grant},
    {12, "cmd_init_not_ready", "init_not_ready", helics::action_message_def::action_t::cmd_init_not_ready},
    {20, "cmd_exec_request", "exec_request", helics::action_message_def::action_t::cmd_exec_request},
    {22, "cmd_exec_grant", "exec_grant", helics::action_message_def::action_t::cmd_exec_grant},
    {24, "cmd_exec_check", "exec_check", helics::action_message_def::action_t::cmd_exec_check},
    {254, "cmd_ack", "ack", helics::action_message_def::action_t::cmd_ack},
    {310, "cmd_timing_info", "", helics::action_message_def::action_t::cmd_timing_info},
    {30, "cmd_stop", "stop", helics::action_message_def::action_t::cmd_stop},
    {31, "cmd_terminate_immediately", "terminate_immediately", helics::action_message_def::action_t::cmd_terminate_immediately},
    {35, "cmd_time_grant", "time_grant", helics::action_message_def::action_t::cmd_time_grant},
    {36, "cmd_time_check", "time_check", helics::action_message_def::action_t::cmd_time_check},
    {38, "cmd_request_current_time", "request current time", helics::action_message_def::action_t::cmd_request_current_time},
    {439, "cmd_grant_timeout_check", "", helics::action_message_def::action_t::cmd_grant_timeout_check},
    {535, "cmd_user_return", "", helics::action_message_def::action_t::cmd_user_return},
    {40, "cmd_time_block", "time_block", helics::action_message_def::action_t::cmd_time_block},
    {41, "cmd_time_unblock", "time_unblock", helics::action_message_def::action_t::cmd_time_unblock},
    {42, "cmd_time_barrier_request", "request time barrier", helics::action_message_def::action_t::cmd_time_barrier_request},
    {43, "cmd_time_barrier", "time barrier", helics::action_message_def::action_t::cmd_time_barrier},
    {44, "cmd_time_barrier_clear", "clear time barrier", helics::action_message_def::action_t::cmd_time_barrier_clear},
    {52, "cmd_pub", "pub", helics::action_message_def::action_t::cmd_pub},
    {2000, "cmd_bye", "bye", helics::action_message_def::action_t::cmd_bye},
    {55, "cmd_log", "log", helics::action_message_def::action_t::cmd_log},
    {2055, "cmd_remote_log", "", helics::action_message_def::action_t::cmd_remote_log},
    {9990, "cmd_warning", "warning", helics::action_message_def::action_t::cmd_warning},
    {10000, "cmd_error", "error", helics::action_message_def::action_t::cmd_error},
    {10003, "cmd_local_error", "", helics::action_message_def::action_t::cmd_local_error},
    {10005, "cmd_global_error", "", helics::action_message_def::action_t::cmd_global_error},
    {10001, "cmd_error_check", "", helics::action_message_def::action_t::cmd_error_check},
    {1010101, "cmd_invalid", "", helics::action_message_def::action_t::cmd_invalid},
    {75, "cmd_send_route", "send_route", helics::action_message_def::action_t::cmd_send_route},
    {1464, "cmd_search_dependency", "", helics::action_message_def::action_t::cmd_search_dependency},
    {140, "cmd_add_dependency", "add_dependency", helics::action_message_def::action_t::cmd_add_dependency},
    {141, "cmd_remove_dependency", "remove_dependency", helics::action_message_def::action_t::cmd_remove_dependency},
    {144, "cmd_add_dependent", "add_dependent", helics::action_message_def::action_t::cmd_add_dependent},
    {145, "cmd_remove_dependent", "remove_dependent", helics::action_message_def::action_t::cmd_remove_dependent},
    {148, "cmd_add_interdependency", "add_interdependency", helics::action_message_def::action_t::cmd_add_interdependency},
    {149, "cmd_remove_interdependency", "remove_interdependency", helics::action_message_def::action_t::cmd_remove_interdependency},
    {268436163, "cmd_data_link", "data link", helics::action_message_def::action_t::cmd_data_link},
    {268436165, "cmd_filter_link", "link filter", helics::action_message_def::action_t::cmd_filter_link},
    {268436167, "cmd_endpoint_link", "", helics::action_message_def::action_t::cmd_endpoint_link},
    {268436171, "cmd_add_alias", "", helics::action_message_def::action_t::cmd_add_alias},
    {202, "cmd_fed_configure_time", "fed_configure_time", helics::action_message_def::action_t::cmd_fed_configure_time},
    {203, "cmd_fed_configure_int", "fed_configure_int", helics::action_message_def::action_t::cmd_fed_configure_int},
    {204, "cmd_fed_configure_flag", "fed_configure_flag", helics::action_message_def::action_t::cmd_fed_configure_flag},
    {207, "cmd_core_configure", "", helics::action_message_def::action_t::cmd_core_configure},
    {209, "cmd_interface_configure", "", helics::action_message_def::action_t::cmd_interface_configure},
    {211, "cmd_broker_configure", "broker_configure", helics::action_message_def::action_t::cmd_broker_configure},
    {213, "cmd_base_configure", "", helics::action_message_def::action_t::cmd_base_configure},
    {218, "cmd_interface_tag", "", helics::action_message_def::action_t::cmd_interface_tag},
    {220, "cmd_core_tag", "", helics::action_message_def::action_t::cmd_core_tag},
    {222, "cmd_broker_tag", "", helics::action_message_def::action_t::cmd_broker_tag},
    {496, "cmd_profiler_data", "", helics::action_message_def::action_t::cmd_profiler_data},
    {498, "cmd_set_profiler_flag", "", helics::action_message_def::action_t::cmd_set_profiler_flag},
    {10427, "cmd_update_filter_op", "", helics::action_message_def::action_t::cmd_update_filter_op},
    {268435455, "null_info_command", "null_info", helics::action_message_def::action_t::null_info_command},
    {-268435457, "priority_null_info_command", "priority_null_info", helics::action_message_def::action_t::priority_null_info_command},
    {500, "cmd_time_request", "time_request", helics::action_message_def::action_t::cmd_time_request},
    {525, "cmd_force_time_grant", "", helics::action_message_def::action_t::cmd_force_time_grant},
    {268435476, "cmd_send_message", "send_message", helics::action_message_def::action_t::cmd_send_message},
    {726, "cmd_null_message", "null message", helics::action_message_def::action_t::cmd_null_message},
    {730, "cmd_null_dest_message", "null destination message", helics::action_message_def::action_t::cmd_null_dest_message},
    {268435486, "cmd_send_for_filter", "send_for_filter", helics::action_message_def::action_t::cmd_send_for_filter},
    {268435487, "cmd_send_for_dest_filter_return", "send_for_dest_filter_return", helics::action_message_def::action_t::cmd_send_for_dest_filter_return},
    {268435491, "cmd_send_for_filter_return", "send_for_filter_return", helics::action_message_def::action_t::cmd_send_for_filter_return},
    {268435496, "cmd_filter_result", "result from running a filter", helics::action_message_def::action_t::cmd_filter_result},
    {268435497, "cmd_dest_filter_result", "", helics::action_message_def::action_t::cmd_dest_filter_result},
    {268435506, "cmd_reg_pub", "reg_pub", helics::action_message_def::action_t::cmd_reg_pub},
    {50, "cmd_add_publisher", "add publisher", helics::action_message_def::action_t::cmd_add_publisher},
    {268435516, "cmd_reg_filter", "reg_filter", helics::action_message_def::action_t::cmd_reg_filter},
    {62, "cmd_add_filter", "add_filter", helics::action_message_def::action_t::cmd_add_filter},
    {268435526, "cmd_reg_input", "reg_input", helics::action_message_def::action_t::cmd_reg_input},
    {70, "cmd_add_subscriber", "add_subscriber", helics::action_message_def::action_t::cmd_add_subscriber},
    {268435536, "cmd_reg_translator", "", helics::action_message_def::action_t::cmd_reg_translator},
    {268435546, "cmd_reg_end", "reg_end", helics::action_message_def::action_t::cmd_reg_end},
    {268435551, "cmd_reg_datasink", "", helics::action_message_def::action_t::cmd_reg_datasink},
    {90, "cmd_add_endpoint", "add_endpoint", helics::action_message_def::action_t::cmd_add_endpoint},
    {104, "cmd_add_named_input", "add_named_input", helics::action_message_def::action_t::cmd_add_named_input},
    {105, "cmd_add_named_filter", "add_named_filter", helics::action_message_def::action_t::cmd_add_named_filter},
    {106, "cmd_add_named_publication", "add_named_publication", helics::action_message_def::action_t::cmd_add_named_publication},
    {107, "cmd_add_named_endpoint", "add_named_endpoint", helics::action_message_def::action_t::cmd_add_named_endpoint},
    {124, "cmd_remove_named_input", "remove_named_input", helics::action_message_def::action_t::cmd_remove_named_input},
    {125, "cmd_remove_named_filter", "remove_named_filter", helics::action_message_def::action_t::cmd_remove_named_filter},
    {126, "cmd_remove_named_publication", "remove_named_publication", helics::action_message_def::action_t::cmd_remove_named_publication},
    {127, "cmd_remove_named_endpoint", "remove_named_endpoint", helics::action_message_def::action_t::cmd_remove_named_endpoint},
    {134, "cmd_remove_subscriber", "remove subscriber", helics::action_message_def::action_t::cmd_remove_subscriber},
    {135, "cmd_remove_filter", "remove filter", helics::action_message_def::action_t::cmd_remove_filter},
    {136, "cmd_remove_publication", "remove publisher", helics::action_message_def::action_t::cmd_remove_publication},
    {137, "cmd_remove_endpoint", "remove endpoint", helics::action_message_def::action_t::cmd_remove_endpoint},
    {133, "cmd_close_interface", "close_interface", helics::action_message_def::action_t::cmd_close_interface},
    {1037, "cmd_multi_message", "multi message", helics::action_message_def::action_t::cmd_multi_message},
    {2034, "cmd_connection_error", "", helics::action_message_def::action_t::cmd_connection_error},
    {-60000, "cmd_protocol_priority", "protocol_priority", helics::action_message_def::action_t::cmd_protocol_priority},
    {60000, "cmd_protocol", "protocol", helics::action_message_def::action_t::cmd_protocol},
    {268495456, "cmd_protocol_big", "protocol_big", helics::action_message_def::action_t::cmd_protocol_big},
    {121212, "cmd_resend", "reg_resend", helics::action_message_def::action_t::cmd_resend},
};
