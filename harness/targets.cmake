harness(h_secagg DEPS fcp_secagg)
harness(h_secagg_adv DEPS fcp_secagg)
harness(h_secagg_math DEPS fcp_secagg)
harness(h_threads DEPS fcp_base)
harness(h_secagg_mt DEPS fcp_secagg)
harness(h_base DEPS fcp_base fcp_client)
harness(h_tracing DEPS fcp_tracing fcp_base)
harness(h_cache DEPS fcp_client fcp_base)
harness(h_crash DEPS fcp_client fcp_base)
harness(h_opstats DEPS fcp_client fcp_base)
harness(h_wire DEPS fcp_http fcp_cc fcp_base)
harness(h_http DEPS fcp_http fcp_client fcp_base)
harness(h_curl DEPS fcp_http fcp_base)
harness(h_client DEPS fcp_http fcp_client fcp_base)
harness(h_protocol DEPS fcp_http fcp_client fcp_cc fcp_base)
harness(h_cc DEPS fcp_attestation fcp_cc fcp_base)
harness(h_runner DEPS fcp_runner)
harness(h_data DEPS fcp_runner)
harness(h_util DEPS fcp_dictionary fcp_tracing fcp_base)
harness(h_local DEPS fcp_runner)
