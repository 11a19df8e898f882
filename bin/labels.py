"""Which property a mismatch label of the specifications belongs to."""
import re

# (regular expression for the whole label, properties)
LABELS = [
    (r'layout-(strref|share)', 'P02 P12'),
    (r'layout-slack', 'P02 P12 P04'),
    (r'layout-version', 'P02 P03 P12'),
    (r'layout-size', 'P02'),
    (r'layout-.*', 'P02'),
    (r'header', 'P01'),
    (r'header-cluster', 'P01 P18'),
    (r'format', 'P12'),
    (r'content', 'P01 P02'),
    (r'content-indoms', 'P01'),
    (r'content-metrics', 'P01'),
    (r'content-values', 'P01 P05'),
    (r'content-ids', 'P01 P18'),
    (r'content-names', 'P01 P12'),
    (r'content-units', 'P01 P17'),
    (r'other-image', 'P23 P01'),
    (r'chg-own-upd', 'P04 P05 P06 P22'),
    (r'chg-own-timer', 'P04 P15'),
    (r'chg-own-hist', 'P04 P16'),
    (r'chg-other', 'P04 P23'),
    (r'chg-idle', 'P04 P09 P23'),
    (r'chg-still', 'P04 P09'),
    (r'incomplete', 'P03'),
    (r'exists', 'P09 P19'),
    (r'exists-stop', 'P09'),
    (r'leak', 'P09'),
    (r'counts', 'P08 P01'),
    (r'counts-strings', 'P08 P12 P01'),
    (r'length', 'P02'),
    (r'res-client-.*', 'P19'),
    (r'res-indom-.*', 'P08 P12'),
    (r'res-indombyname-.*', 'P08 P12'),
    (r'res-regindom-.*', 'P08'),
    (r'res-register-.*', 'P08'),
    (r'res-regstring-.*', 'P08 P11 P05'),
    (r'res-metric-(single|inst)', 'P05'),
    (r'res-metric-hist', 'P16'),
    (r'res-metric-timer', 'P15'),
    (r'res-metric-.*', 'P05 P22'),
    (r'res-upd-(single|inst)', 'P05 P22'),
    (r'res-upd-(counter|cvec)', 'P06 P22'),
    (r'res-upd-.*', 'P22'),
    (r'res-get-.*', 'P22'),
    (r'res-timer-.*', 'P15'),
    (r'res-hist-.*', 'P16'),
    (r'res-flag-.*', 'P09'),
    (r'res-(start|stop)-.*', 'P09'),
    (r'res-(has|info|image|erase)-.*', 'P08'),
    (r'res-active', 'P09 P08'),
    (r'res-must', 'P22'),
    (r'res-unknown-inst', 'P22'),
    (r'res-length', 'P12'),
    (r'panic', ''),
    (r'hang', 'P10'),
    (r'lin-counter', 'P06 P07'),
    (r'lin-(metrics|hist|timer)', 'P07'),
    (r'lin-(start|held)', 'P10'),
    (r'lin-heldupd', 'P07'),
    (r'hist-climb', 'P07'),
    (r'lin-(reg|rush)', 'P08 P10'),
    (r'lin-multi', 'P10 P23'),
    (r'torn-back', 'P06 P20'),
    (r'torn-last', 'P04 P07 P20'),
    (r'torn-result', 'P22'),
    (r'torn-.*', 'P20'),
    (r'unknown', ''),
    (r'read-type', 'P05'),
    (r'read-(single|inst)', 'P05 P22'),
    (r'read-(counter|cvec)', 'P06 P22'),
    (r'read-.*', 'P22'),
    (r'backwards', 'P06'),
    (r'sums', 'P22'),
    (r'elapsed', 'P15'),
    (r'hist-.*', 'P16'),
    (r'regstring-names', 'P11'),
    (r'membership', 'P08'),
    (r'info', 'P01'),
    (r'info-id', 'P18'),
    (r'info-unit', 'P17'),
    (r'(dump|print)-crash|dump-accept', 'P14'),
    (r'(dump|print)-.*', 'P13'),
    (r'unit-.*', 'P17'),
    (r'same-id', 'P18'),
    (r'bw-.*', 'P21'),
    (r'conf-.*', 'P19'),
]
ANY = {'crash', 'panic', 'hang'}      # counts for the property that is being checked

def props_of(label, prop):
    if label in ANY or label.startswith('crash'):
        return {prop}
    for rx, ps in LABELS:
        if re.fullmatch(rx, label):
            return set(ps.split())
    return None
