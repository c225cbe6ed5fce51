from . import rules, rules_sweep, rules_flow, rules_terms, rules_options, rules_miss, rules_form, rules_avg, rules_test
