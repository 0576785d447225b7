from c03 import verdicts, op_current
from common import attempt
from ipkg.requirements import Requirement


def op_merge(texts, orders, as_text, candidates):
    """Verdicts of the merge in each order, and of each requirement."""
    parts = [Requirement(t) for t in texts]
    before = [str(p) for p in parts], [verdicts(p, candidates) for p in parts]

    def merge(order):
        merged = parts[order[0]]
        for i in order[1:]:
            merged = merged + (texts[i] if as_text else parts[i])
        return {'verdicts': verdicts(merged, candidates),
                'extras': list(merged.extras), 'name': merged.name,
                'platform': str(merged.platform)}

    out = [attempt(merge, order) for order in orders]
    after = [str(p) for p in parts], [verdicts(p, candidates) for p in parts]
    return {'parts': before[1], 'merged': out, 'unchanged': before == after}
