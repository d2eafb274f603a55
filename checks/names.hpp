// documented spellings of option names, taken down from the documentation and the shipped tables
#pragma once
#include "helics/helics_enums.h"
#include <string>
#include <utility>
#include <vector>
namespace names {
using Table = std::vector<std::pair<std::string, int>>;
inline const Table propNames{
    {"period", HELICS_PROPERTY_TIME_PERIOD},
    {"timeperiod", HELICS_PROPERTY_TIME_PERIOD},
    {"time_period", HELICS_PROPERTY_TIME_PERIOD},
    {"delta", HELICS_PROPERTY_TIME_DELTA},
    {"timedelta", HELICS_PROPERTY_TIME_DELTA},
    {"time_delta", HELICS_PROPERTY_TIME_DELTA},
    {"timeDelta", HELICS_PROPERTY_TIME_DELTA},
    {"offset", HELICS_PROPERTY_TIME_OFFSET},
    {"timeoffset", HELICS_PROPERTY_TIME_OFFSET},
    {"time_offset", HELICS_PROPERTY_TIME_OFFSET},
    {"stop_time", HELICS_PROPERTY_TIME_STOPTIME},
    {"stoptime", HELICS_PROPERTY_TIME_STOPTIME},
    {"rtlead", HELICS_PROPERTY_TIME_RT_LEAD},
    {"rtlag", HELICS_PROPERTY_TIME_RT_LAG},
    {"rttolerance", HELICS_PROPERTY_TIME_RT_TOLERANCE},
    {"timertlead", HELICS_PROPERTY_TIME_RT_LEAD},
    {"timertlag", HELICS_PROPERTY_TIME_RT_LAG},
    {"timerttolerance", HELICS_PROPERTY_TIME_RT_TOLERANCE},
    {"rtLead", HELICS_PROPERTY_TIME_RT_LEAD},
    {"rtLag", HELICS_PROPERTY_TIME_RT_LAG},
    {"rtTolerance", HELICS_PROPERTY_TIME_RT_TOLERANCE},
    {"rt_lead", HELICS_PROPERTY_TIME_RT_LEAD},
    {"rt_lag", HELICS_PROPERTY_TIME_RT_LAG},
    {"rt_tolerance", HELICS_PROPERTY_TIME_RT_TOLERANCE},
    {"time_rt_lead", HELICS_PROPERTY_TIME_RT_LEAD},
    {"time_rt_lag", HELICS_PROPERTY_TIME_RT_LAG},
    {"time_rt_tolerance", HELICS_PROPERTY_TIME_RT_TOLERANCE},
    {"inputdelay", HELICS_PROPERTY_TIME_INPUT_DELAY},
    {"outputdelay", HELICS_PROPERTY_TIME_OUTPUT_DELAY},
    {"inputDelay", HELICS_PROPERTY_TIME_INPUT_DELAY},
    {"outputDelay", HELICS_PROPERTY_TIME_OUTPUT_DELAY},
    {"input_delay", HELICS_PROPERTY_TIME_INPUT_DELAY},
    {"output_delay", HELICS_PROPERTY_TIME_OUTPUT_DELAY},
    {"timeinputdelay", HELICS_PROPERTY_TIME_INPUT_DELAY},
    {"timeoutputdelay", HELICS_PROPERTY_TIME_OUTPUT_DELAY},
    {"time_input_delay", HELICS_PROPERTY_TIME_INPUT_DELAY},
    {"time_output_delay", HELICS_PROPERTY_TIME_OUTPUT_DELAY},
    {"granttimeout", HELICS_PROPERTY_TIME_GRANT_TIMEOUT},
    {"grant_timeout", HELICS_PROPERTY_TIME_GRANT_TIMEOUT},
    {"loglevel", HELICS_PROPERTY_INT_LOG_LEVEL},
    {"log_level", HELICS_PROPERTY_INT_LOG_LEVEL},
    {"logLevel", HELICS_PROPERTY_INT_LOG_LEVEL},
    {"intloglevel", HELICS_PROPERTY_INT_LOG_LEVEL},
    {"intLogLevel", HELICS_PROPERTY_INT_LOG_LEVEL},
    {"int_log_level", HELICS_PROPERTY_INT_LOG_LEVEL},
    {"consoleLogLevel", HELICS_PROPERTY_INT_CONSOLE_LOG_LEVEL},
    {"consoleloglevel", HELICS_PROPERTY_INT_CONSOLE_LOG_LEVEL},
    {"console_log_level", HELICS_PROPERTY_INT_CONSOLE_LOG_LEVEL},
    {"intconsoleloglevel", HELICS_PROPERTY_INT_CONSOLE_LOG_LEVEL},
    {"intConsoleLogLevel", HELICS_PROPERTY_INT_CONSOLE_LOG_LEVEL},
    {"int_console_log_level", HELICS_PROPERTY_INT_CONSOLE_LOG_LEVEL},
    {"fileloglevel", HELICS_PROPERTY_INT_FILE_LOG_LEVEL},
    {"fileLogLevel", HELICS_PROPERTY_INT_FILE_LOG_LEVEL},
    {"file_log_level", HELICS_PROPERTY_INT_FILE_LOG_LEVEL},
    {"intfileloglevel", HELICS_PROPERTY_INT_FILE_LOG_LEVEL},
    {"intFileLogLevel", HELICS_PROPERTY_INT_FILE_LOG_LEVEL},
    {"int_file_log_level", HELICS_PROPERTY_INT_FILE_LOG_LEVEL},
    {"maxiterations", HELICS_PROPERTY_INT_MAX_ITERATIONS},
    {"max_iterations", HELICS_PROPERTY_INT_MAX_ITERATIONS},
    {"maxIterations", HELICS_PROPERTY_INT_MAX_ITERATIONS},
    {"intmaxiterations", HELICS_PROPERTY_INT_MAX_ITERATIONS},
    {"intMaxIterations", HELICS_PROPERTY_INT_MAX_ITERATIONS},
    {"int_max_iterations", HELICS_PROPERTY_INT_MAX_ITERATIONS},
    {"indexgroup", HELICS_PROPERTY_INT_INDEX_GROUP},
    {"index_group", HELICS_PROPERTY_INT_INDEX_GROUP},
    {"indexGroup", HELICS_PROPERTY_INT_INDEX_GROUP},
    {"logbuffer", HELICS_PROPERTY_INT_LOG_BUFFER},
    {"logBuffer", HELICS_PROPERTY_INT_LOG_BUFFER},
    {"log_buffer", HELICS_PROPERTY_INT_LOG_BUFFER},
    {"valuebufferwarning", HELICS_PROPERTY_INT_VALUE_BUFFER_WARNING},
    {"valueBufferWarning", HELICS_PROPERTY_INT_VALUE_BUFFER_WARNING},
    {"value_buffer_warning", HELICS_PROPERTY_INT_VALUE_BUFFER_WARNING},
    {"value_buffer_warning_mib", HELICS_PROPERTY_INT_VALUE_BUFFER_WARNING},
    {"valuebufferwarningmib", HELICS_PROPERTY_INT_VALUE_BUFFER_WARNING},
    {"valueBufferWarningMiB", HELICS_PROPERTY_INT_VALUE_BUFFER_WARNING},
    {"intvaluebufferwarning", HELICS_PROPERTY_INT_VALUE_BUFFER_WARNING},
    {"intValueBufferWarning", HELICS_PROPERTY_INT_VALUE_BUFFER_WARNING},
    {"int_value_buffer_warning", HELICS_PROPERTY_INT_VALUE_BUFFER_WARNING},
};
inline const Table flagNames{
    {"source_only", HELICS_FLAG_SOURCE_ONLY},
    {"sourceonly", HELICS_FLAG_SOURCE_ONLY},
    {"sourceOnly", HELICS_FLAG_SOURCE_ONLY},
    {"source", HELICS_FLAG_SOURCE_ONLY},
    {"observer", HELICS_FLAG_OBSERVER},
    {"slow", HELICS_FLAG_SLOW_RESPONDING},
    {"slow_response", HELICS_FLAG_SLOW_RESPONDING},
    {"slow_responding", HELICS_FLAG_SLOW_RESPONDING},
    {"slowresponding", HELICS_FLAG_SLOW_RESPONDING},
    {"slowResponding", HELICS_FLAG_SLOW_RESPONDING},
    {"uninterruptible", HELICS_FLAG_UNINTERRUPTIBLE},
    {"interruptible", HELICS_FLAG_INTERRUPTIBLE},
    {"debugging", HELICS_FLAG_DEBUGGING},
    {"profiling", HELICS_FLAG_PROFILING},
    {"reentrant", HELICS_FLAG_REENTRANT},
    {"local_profiling_capture", HELICS_FLAG_LOCAL_PROFILING_CAPTURE},
    {"profiling_marker", HELICS_FLAG_PROFILING_MARKER},
    {"only_update_on_change", HELICS_FLAG_ONLY_UPDATE_ON_CHANGE},
    {"onlyupdateonchange", HELICS_FLAG_ONLY_UPDATE_ON_CHANGE},
    {"onlyUpdateOnChange", HELICS_FLAG_ONLY_UPDATE_ON_CHANGE},
    {"only_transmit_on_change", HELICS_FLAG_ONLY_TRANSMIT_ON_CHANGE},
    {"onlytransmitonchange", HELICS_FLAG_ONLY_TRANSMIT_ON_CHANGE},
    {"onlyTransmitOnChange", HELICS_FLAG_ONLY_TRANSMIT_ON_CHANGE},
    {"forward_compute", HELICS_FLAG_FORWARD_COMPUTE},
    {"forwardcompute", HELICS_FLAG_FORWARD_COMPUTE},
    {"forwardCompute", HELICS_FLAG_FORWARD_COMPUTE},
    {"real_time", HELICS_FLAG_REALTIME},
    {"realtime", HELICS_FLAG_REALTIME},
    {"realTime", HELICS_FLAG_REALTIME},
    {"json", HELICS_FLAG_USE_JSON_SERIALIZATION},
    {"use_json_serialization", HELICS_FLAG_USE_JSON_SERIALIZATION},
    {"restrictivetimepolicy", HELICS_FLAG_RESTRICTIVE_TIME_POLICY},
    {"restrictive_time_policy", HELICS_FLAG_RESTRICTIVE_TIME_POLICY},
    {"restrictiveTimePolicy", HELICS_FLAG_RESTRICTIVE_TIME_POLICY},
    {"ignore_time_mismatch", HELICS_FLAG_IGNORE_TIME_MISMATCH_WARNINGS},
    {"ignoreTimeMismatch", HELICS_FLAG_IGNORE_TIME_MISMATCH_WARNINGS},
    {"ignoretimemismatch", HELICS_FLAG_IGNORE_TIME_MISMATCH_WARNINGS},
    {"strict_input_type_checking", HELICS_HANDLE_OPTION_STRICT_TYPE_CHECKING},
    {"strict_config_checking", HELICS_FLAG_STRICT_CONFIG_CHECKING},
    {"strictconfigchecking", HELICS_FLAG_STRICT_CONFIG_CHECKING},
    {"strictConfigChecking", HELICS_FLAG_STRICT_CONFIG_CHECKING},
    {"strictinputtypechecking", HELICS_HANDLE_OPTION_STRICT_TYPE_CHECKING},
    {"strictInputTypeChecking", HELICS_HANDLE_OPTION_STRICT_TYPE_CHECKING},
    {"ignore_unit_mismatch", HELICS_HANDLE_OPTION_IGNORE_UNIT_MISMATCH},
    {"ignoreunitmismatch", HELICS_HANDLE_OPTION_IGNORE_UNIT_MISMATCH},
    {"ignoreUnitMismatch", HELICS_HANDLE_OPTION_IGNORE_UNIT_MISMATCH},
    {"connectionoptional", HELICS_HANDLE_OPTION_CONNECTION_OPTIONAL},
    {"connection_optional", HELICS_HANDLE_OPTION_CONNECTION_OPTIONAL},
    {"connectionOptional", HELICS_HANDLE_OPTION_CONNECTION_OPTIONAL},
    {"optional", HELICS_HANDLE_OPTION_CONNECTION_OPTIONAL},
    {"wait_for_current_time_update", HELICS_FLAG_WAIT_FOR_CURRENT_TIME_UPDATE},
    {"waitforcurrenttimeupdate", HELICS_FLAG_WAIT_FOR_CURRENT_TIME_UPDATE},
    {"waitForCurrentTimeUpdate", HELICS_FLAG_WAIT_FOR_CURRENT_TIME_UPDATE},
    {"delay_init_entry", HELICS_FLAG_DELAY_INIT_ENTRY},
    {"delayinitentry", HELICS_FLAG_DELAY_INIT_ENTRY},
    {"delayInitEntry", HELICS_FLAG_DELAY_INIT_ENTRY},
    {"enable_init_entry", HELICS_FLAG_ENABLE_INIT_ENTRY},
    {"enableinitentry", HELICS_FLAG_ENABLE_INIT_ENTRY},
    {"enableInitEntry", HELICS_FLAG_ENABLE_INIT_ENTRY},
    {"ignore_time_mismatch_warnings", HELICS_FLAG_IGNORE_TIME_MISMATCH_WARNINGS},
    {"ignoretimemismatchwarnings", HELICS_FLAG_IGNORE_TIME_MISMATCH_WARNINGS},
    {"ignoreTimeMismatchWarnings", HELICS_FLAG_IGNORE_TIME_MISMATCH_WARNINGS},
    {"single_thread_federate", HELICS_FLAG_SINGLE_THREAD_FEDERATE},
    {"singlethreadfederate", HELICS_FLAG_SINGLE_THREAD_FEDERATE},
    {"singleThreadFederate", HELICS_FLAG_SINGLE_THREAD_FEDERATE},
    {"single_thread_core", HELICS_FLAG_SINGLE_THREAD_CORE},
    {"singlethreadcore", HELICS_FLAG_SINGLE_THREAD_CORE},
    {"singleThreadCore", HELICS_FLAG_SINGLE_THREAD_CORE},
    {"multi_thread_core", HELICS_FLAG_MULTI_THREAD_CORE},
    {"multithreadcore", HELICS_FLAG_MULTI_THREAD_CORE},
    {"multiThreadCore", HELICS_FLAG_MULTI_THREAD_CORE},
    {"force_logging_flush", HELICS_FLAG_FORCE_LOGGING_FLUSH},
    {"forceloggingflush", HELICS_FLAG_FORCE_LOGGING_FLUSH},
    {"forceLoggingFlush", HELICS_FLAG_FORCE_LOGGING_FLUSH},
    {"dump_log", HELICS_FLAG_DUMPLOG},
    {"dumplog", HELICS_FLAG_DUMPLOG},
    {"dumpLog", HELICS_FLAG_DUMPLOG},
    {"event_triggered", HELICS_FLAG_EVENT_TRIGGERED},
    {"eventtriggered", HELICS_FLAG_EVENT_TRIGGERED},
    {"eventTriggered", HELICS_FLAG_EVENT_TRIGGERED},
    {"buffer_data", HELICS_HANDLE_OPTION_BUFFER_DATA},
    {"bufferdata", HELICS_HANDLE_OPTION_BUFFER_DATA},
    {"bufferData", HELICS_HANDLE_OPTION_BUFFER_DATA},
    {"reconnectable", HELICS_HANDLE_OPTION_RECONNECTABLE},
    {"connection_required", HELICS_HANDLE_OPTION_CONNECTION_REQUIRED},
    {"connectionrequired", HELICS_HANDLE_OPTION_CONNECTION_REQUIRED},
    {"connectionRequired", HELICS_HANDLE_OPTION_CONNECTION_REQUIRED},
    {"required", HELICS_HANDLE_OPTION_CONNECTION_REQUIRED},
    {"rollback", HELICS_FLAG_ROLLBACK},
    {"terminate_on_error", HELICS_FLAG_TERMINATE_ON_ERROR},
    {"terminateOnError", HELICS_FLAG_TERMINATE_ON_ERROR},
    {"terminateonerror", HELICS_FLAG_TERMINATE_ON_ERROR},
    {"allowRemoteControl", HELICS_FLAG_ALLOW_REMOTE_CONTROL},
    {"allowremotecontrol", HELICS_FLAG_ALLOW_REMOTE_CONTROL},
    {"allow_remote_control", HELICS_FLAG_ALLOW_REMOTE_CONTROL},
    {"disableRemoteControl", HELICS_FLAG_DISABLE_REMOTE_CONTROL},
    {"disableremotecontrol", HELICS_FLAG_DISABLE_REMOTE_CONTROL},
    {"disable_remote_control", HELICS_FLAG_DISABLE_REMOTE_CONTROL},
};
inline const Table optionNames{
    {"buffer_data", HELICS_HANDLE_OPTION_BUFFER_DATA},
    {"bufferdata", HELICS_HANDLE_OPTION_BUFFER_DATA},
    {"bufferData", HELICS_HANDLE_OPTION_BUFFER_DATA},
    {"reconnectable", HELICS_HANDLE_OPTION_RECONNECTABLE},
    {"connectionoptional", HELICS_HANDLE_OPTION_CONNECTION_OPTIONAL},
    {"connection_optional", HELICS_HANDLE_OPTION_CONNECTION_OPTIONAL},
    {"connectionOptional", HELICS_HANDLE_OPTION_CONNECTION_OPTIONAL},
    {"connectionrequired", HELICS_HANDLE_OPTION_CONNECTION_REQUIRED},
    {"connection_required", HELICS_HANDLE_OPTION_CONNECTION_REQUIRED},
    {"required", HELICS_HANDLE_OPTION_CONNECTION_REQUIRED},
    {"connectionRequired", HELICS_HANDLE_OPTION_CONNECTION_REQUIRED},
    {"uninterruptible", HELICS_HANDLE_OPTION_IGNORE_INTERRUPTS},
    {"multiple_connections_allowed", HELICS_HANDLE_OPTION_MULTIPLE_CONNECTIONS_ALLOWED},
    {"multipleconnectionsallowed", HELICS_HANDLE_OPTION_MULTIPLE_CONNECTIONS_ALLOWED},
    {"multipleConnectionsAllowed", HELICS_HANDLE_OPTION_MULTIPLE_CONNECTIONS_ALLOWED},
    {"single_connection_only", HELICS_HANDLE_OPTION_SINGLE_CONNECTION_ONLY},
    {"singleconnectiononly", HELICS_HANDLE_OPTION_SINGLE_CONNECTION_ONLY},
    {"singleConnectionOnly", HELICS_HANDLE_OPTION_SINGLE_CONNECTION_ONLY},
    {"only_transmit_on_change", HELICS_HANDLE_OPTION_ONLY_TRANSMIT_ON_CHANGE},
    {"onlytransmitonchange", HELICS_HANDLE_OPTION_ONLY_TRANSMIT_ON_CHANGE},
    {"onlyTransmitOnChange", HELICS_HANDLE_OPTION_ONLY_TRANSMIT_ON_CHANGE},
    {"only_update_on_change", HELICS_HANDLE_OPTION_ONLY_UPDATE_ON_CHANGE},
    {"onlyupdateonchange", HELICS_HANDLE_OPTION_ONLY_UPDATE_ON_CHANGE},
    {"onlyUpdateOnChange", HELICS_HANDLE_OPTION_ONLY_UPDATE_ON_CHANGE},
    {"ignore_unit_mismatch", HELICS_HANDLE_OPTION_IGNORE_UNIT_MISMATCH},
    {"ignoreunitmismatch", HELICS_HANDLE_OPTION_IGNORE_UNIT_MISMATCH},
    {"ignoreUnitMismatch", HELICS_HANDLE_OPTION_IGNORE_UNIT_MISMATCH},
    {"strict_input_type_checking", HELICS_HANDLE_OPTION_STRICT_TYPE_CHECKING},
    {"strictinputtypechecking", HELICS_HANDLE_OPTION_STRICT_TYPE_CHECKING},
    {"strictInputTypeChecking", HELICS_HANDLE_OPTION_STRICT_TYPE_CHECKING},
    {"connections", HELICS_HANDLE_OPTION_CONNECTIONS},
    {"timerestricted", HELICS_HANDLE_OPTION_TIME_RESTRICTED},
    {"timeRestricted", HELICS_HANDLE_OPTION_TIME_RESTRICTED},
    {"clear_priority_list", HELICS_HANDLE_OPTION_CLEAR_PRIORITY_LIST},
    {"clearPriorityList", HELICS_HANDLE_OPTION_CLEAR_PRIORITY_LIST},
    {"clearprioritylist", HELICS_HANDLE_OPTION_CLEAR_PRIORITY_LIST},
    {"input_priority_location", HELICS_HANDLE_OPTION_INPUT_PRIORITY_LOCATION},
    {"inputprioritylocation", HELICS_HANDLE_OPTION_INPUT_PRIORITY_LOCATION},
    {"inputPriorityLocation", HELICS_HANDLE_OPTION_INPUT_PRIORITY_LOCATION},
    {"multi_input_handling_method", HELICS_HANDLE_OPTION_MULTI_INPUT_HANDLING_METHOD},
    {"multiinputhandlingmethod", HELICS_HANDLE_OPTION_MULTI_INPUT_HANDLING_METHOD},
    {"multiInputHandlingMethod", HELICS_HANDLE_OPTION_MULTI_INPUT_HANDLING_METHOD},
};
inline const Table valueNames{
    {"0", 0},
    {"1", 1},
    {"-", 0},
    {"+", 1},
    {"false", 0},
    {"true", 1},
    {"on", 1},
    {"off", 0},
    {"disable", 0},
    {"enable", 1},
    {"disabled", 0},
    {"enabled", 1},
    {"2", 2},
    {"3", 3},
    {"4", 4},
    {"stop", 0},
    {"start", 1},
    {"none", HELICS_MULTI_INPUT_NO_OP},
    {"no_op", HELICS_MULTI_INPUT_NO_OP},
    {"and", HELICS_MULTI_INPUT_AND_OPERATION},
    {"or", HELICS_MULTI_INPUT_OR_OPERATION},
    {"sum", HELICS_MULTI_INPUT_SUM_OPERATION},
    {"max", HELICS_MULTI_INPUT_MAX_OPERATION},
    {"min", HELICS_MULTI_INPUT_MIN_OPERATION},
    {"average", HELICS_MULTI_INPUT_AVERAGE_OPERATION},
    {"mean", HELICS_MULTI_INPUT_AVERAGE_OPERATION},
    {"vectorize", HELICS_MULTI_INPUT_VECTORIZE_OPERATION},
    {"diff", HELICS_MULTI_INPUT_DIFF_OPERATION},
};
inline const Table logNames{
    {"none", HELICS_LOG_LEVEL_NO_PRINT}, {"no_print", HELICS_LOG_LEVEL_NO_PRINT}, {"error", HELICS_LOG_LEVEL_ERROR},
    {"warning", HELICS_LOG_LEVEL_WARNING}, {"summary", HELICS_LOG_LEVEL_SUMMARY}, {"connections", HELICS_LOG_LEVEL_CONNECTIONS},
    {"interfaces", HELICS_LOG_LEVEL_INTERFACES}, {"timing", HELICS_LOG_LEVEL_TIMING}, {"profiling", HELICS_LOG_LEVEL_PROFILING},
    {"data", HELICS_LOG_LEVEL_DATA}, {"debug", HELICS_LOG_LEVEL_DEBUG}, {"trace", HELICS_LOG_LEVEL_TRACE}};
inline const Table coreNames{
    {"default", HELICS_CORE_TYPE_DEFAULT},
    {"def", HELICS_CORE_TYPE_DEFAULT},
    {"mpi", HELICS_CORE_TYPE_MPI},
    {"message_passing_interface", HELICS_CORE_TYPE_MPI},
    {"MPI", HELICS_CORE_TYPE_MPI},
    {"ZMQ", HELICS_CORE_TYPE_ZMQ},
    {"0mq", HELICS_CORE_TYPE_ZMQ},
    {"zmq", HELICS_CORE_TYPE_ZMQ},
    {"zeromq", HELICS_CORE_TYPE_ZMQ},
    {"zeromq_ss", HELICS_CORE_TYPE_ZMQ_SS},
    {"zmqss", HELICS_CORE_TYPE_ZMQ_SS},
    {"ZMQSS", HELICS_CORE_TYPE_ZMQ_SS},
    {"zmq_ss", HELICS_CORE_TYPE_ZMQ_SS},
    {"ZMQ_SS", HELICS_CORE_TYPE_ZMQ_SS},
    {"0mq_ss", HELICS_CORE_TYPE_ZMQ_SS},
    {"0mqss", HELICS_CORE_TYPE_ZMQ_SS},
    {"zeromq2", HELICS_CORE_TYPE_ZMQ_SS},
    {"zmq2", HELICS_CORE_TYPE_ZMQ_SS},
    {"ZMQ2", HELICS_CORE_TYPE_ZMQ_SS},
    {"interprocess", HELICS_CORE_TYPE_INTERPROCESS},
    {"ZeroMQ", HELICS_CORE_TYPE_ZMQ},
    {"ZeroMQ2", HELICS_CORE_TYPE_ZMQ_SS},
    {"ipc", HELICS_CORE_TYPE_INTERPROCESS},
    {"interproc", HELICS_CORE_TYPE_INTERPROCESS},
    {"IPC", HELICS_CORE_TYPE_INTERPROCESS},
    {"tcp", HELICS_CORE_TYPE_TCP},
    {"tcpip", HELICS_CORE_TYPE_TCP},
    {"TCP", HELICS_CORE_TYPE_TCP},
    {"TCPIP", HELICS_CORE_TYPE_TCP},
    {"tcpss", HELICS_CORE_TYPE_TCP_SS},
    {"tcpipss", HELICS_CORE_TYPE_TCP_SS},
    {"TCPSS", HELICS_CORE_TYPE_TCP_SS},
    {"TCPIPSS", HELICS_CORE_TYPE_TCP_SS},
    {"tcp_ss", HELICS_CORE_TYPE_TCP_SS},
    {"tcpip_ss", HELICS_CORE_TYPE_TCP_SS},
    {"TCP_SS", HELICS_CORE_TYPE_TCP_SS},
    {"TCPIP_SS", HELICS_CORE_TYPE_TCP_SS},
    {"single_socket", HELICS_CORE_TYPE_TCP_SS},
    {"single socket", HELICS_CORE_TYPE_TCP_SS},
    {"ss", HELICS_CORE_TYPE_TCP_SS},
    {"udp", HELICS_CORE_TYPE_UDP},
    {"test", HELICS_CORE_TYPE_TEST},
    {"UDP", HELICS_CORE_TYPE_UDP},
    {"local", HELICS_CORE_TYPE_TEST},
    {"inprocess", HELICS_CORE_TYPE_INPROC},
    {"websocket", HELICS_CORE_TYPE_WEBSOCKET},
    {"web", HELICS_CORE_TYPE_WEBSOCKET},
    {"inproc", HELICS_CORE_TYPE_INPROC},
    {"nng", HELICS_CORE_TYPE_NNG},
    {"null", HELICS_CORE_TYPE_NULL},
    {"nullcore", HELICS_CORE_TYPE_NULL},
    {"none", HELICS_CORE_TYPE_NULL},
    {"empty", HELICS_CORE_TYPE_EMPTY},
    {"http", HELICS_CORE_TYPE_HTTP},
    {"HTTP", HELICS_CORE_TYPE_HTTP},
    {"test1", HELICS_CORE_TYPE_TEST},
    {"multi", 45},
};
}
namespace names {
inline const Table typeNames{
    {"double", HELICS_DATA_TYPE_DOUBLE},
    {"string", HELICS_DATA_TYPE_STRING},
    {"binary", HELICS_DATA_TYPE_BOOLEAN},
    {"bool", HELICS_DATA_TYPE_BOOLEAN},
    {"boolean", HELICS_DATA_TYPE_BOOLEAN},
    {"flag", HELICS_DATA_TYPE_BOOLEAN},
    {"float", HELICS_DATA_TYPE_DOUBLE},
    {"vector", HELICS_DATA_TYPE_VECTOR},
    {"double_vector", HELICS_DATA_TYPE_VECTOR},
    {"double vector", HELICS_DATA_TYPE_VECTOR},
    {"doublevector", HELICS_DATA_TYPE_VECTOR},
    {"complex", HELICS_DATA_TYPE_COMPLEX},
    {"pair", HELICS_DATA_TYPE_COMPLEX},
    {"int", HELICS_DATA_TYPE_INT},
    {"int64", HELICS_DATA_TYPE_INT},
    {"long long", HELICS_DATA_TYPE_INT},
    {"longlong", HELICS_DATA_TYPE_INT},
    {"integer", HELICS_DATA_TYPE_INT},
    {"int32", HELICS_DATA_TYPE_INT},
    {"uint32", HELICS_DATA_TYPE_INT},
    {"uint64", HELICS_DATA_TYPE_INT},
    {"int16", HELICS_DATA_TYPE_INT},
    {"uint16", HELICS_DATA_TYPE_INT},
    {"short", HELICS_DATA_TYPE_INT},
    {"unsigned short", HELICS_DATA_TYPE_INT},
    {"unsignedshort", HELICS_DATA_TYPE_INT},
    {"long", HELICS_DATA_TYPE_INT},
    {"unsigned long", HELICS_DATA_TYPE_INT},
    {"unsignedlong", HELICS_DATA_TYPE_INT},
    {"char", HELICS_DATA_TYPE_CHAR},
    {"uchar", HELICS_DATA_TYPE_INT},
    {"unsigned char", HELICS_DATA_TYPE_INT},
    {"unsignedchar", HELICS_DATA_TYPE_INT},
    {"byte", HELICS_DATA_TYPE_INT},
    {"int8", HELICS_DATA_TYPE_INT},
    {"uint8", HELICS_DATA_TYPE_INT},
    {"char8_t", HELICS_DATA_TYPE_CHAR},
    {"complex_vector", HELICS_DATA_TYPE_COMPLEX_VECTOR},
    {"complex vector", HELICS_DATA_TYPE_COMPLEX_VECTOR},
    {"complexvector", HELICS_DATA_TYPE_COMPLEX_VECTOR},
    {"d", HELICS_DATA_TYPE_DOUBLE},
    {"s", HELICS_DATA_TYPE_STRING},
    {"f", HELICS_DATA_TYPE_DOUBLE},
    {"v", HELICS_DATA_TYPE_VECTOR},
    {"c", HELICS_DATA_TYPE_CHAR},
    {"t", HELICS_DATA_TYPE_TIME},
    {"i", HELICS_DATA_TYPE_INT},
    {"i64", HELICS_DATA_TYPE_INT},
    {"cv", HELICS_DATA_TYPE_COMPLEX_VECTOR},
    {"np", HELICS_DATA_TYPE_NAMED_POINT},
    {"point", HELICS_DATA_TYPE_NAMED_POINT},
    {"pt", HELICS_DATA_TYPE_NAMED_POINT},
    {"named_point", HELICS_DATA_TYPE_NAMED_POINT},
    {"namedpoint", HELICS_DATA_TYPE_NAMED_POINT},
    {"default", HELICS_DATA_TYPE_ANY},
    {"time", HELICS_DATA_TYPE_TIME},
    {"tm", HELICS_DATA_TYPE_TIME},
    {"multi", HELICS_DATA_TYPE_MULTI},
    {"many", HELICS_DATA_TYPE_MULTI},
    {"json", HELICS_DATA_TYPE_JSON},
    {"def", HELICS_DATA_TYPE_ANY},
    {"any", HELICS_DATA_TYPE_ANY},
    {"", HELICS_DATA_TYPE_ANY},
    {"all", HELICS_DATA_TYPE_ANY},
};
}
