"""Which function decides which property, and by what technique."""
from checks import numeric, text, configs, structural, messages, records

CHECKS = {}
CHECKS.update(numeric.CHECKS)
CHECKS.update(text.CHECKS)
CHECKS.update(configs.CHECKS)
CHECKS.update(structural.CHECKS)
CHECKS.update(messages.CHECKS)
CHECKS.update(records.CHECKS)

NOTE = ('static analysis of the compiled program (MIR) of every reachable function, all obligations discharged for all inputs '
        'under the trusted base listed in the evidence; floating-point operations read as real arithmetic; '
        'no code of the library is run')
NOT_APPLICABLE = {
    'C28': 'a bound on accumulated rounding error over all orbits and times needs numerical error analysis or execution, which the value analysis (real arithmetic) does not provide',
}
NOTES = 'All checks compile /repo and the client crate /verif/harness with the rustc driver in /verif/driver on every run and analyse the resulting MIR.'
