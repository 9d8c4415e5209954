"""Writes /verif/known_findings.txt from the list of fixes below."""
import os

FIXES = [
    ('08ec51d', 'C11', 'a run without an execution_id used counts and clock of a base context / the last context instead of the default one'),
    ('c85f910', 'C11 C13 C14', 'absolute time runs in a new context failed with KeyError (execution_timestamps not initialized)'),
    ('3b9edd2', 'C04 C28', 'termination_conds dictionary of the caller was modified, and iterated over while being changed'),
    ('a5a5ea5', 'C07', 'JustRan raised IndexError before the first consideration set execution'),
    ('a0e9659', 'C06', 'counts for ENVIRONMENT_SEQUENCE were never reset when a sequence ended'),
    ('7bc4b41', 'C06', 'counts for CONSIDERATION_SET_EXECUTION were not reset after each consideration set'),
    ('403c67a', 'C22', 'ConditionSet item assignment failed for owners with structural conditions'),
    ('144cf92', 'C22', 'remove_condition did not return the removed condition'),
    ('58a8e6f', 'C21', 'graph not rebuilt when a structural condition is moved to another owner'),
    ('46b471d', 'C21', 'graph history inconsistent after a structural condition failed'),
    ('6c8c246', 'C17 C19', 'graph structure operations let several nodes share one sender set'),
    ('822741d', 'C19', 'operation conflicts among nodes that are not strings raised TypeError'),
    ('f2eb301', 'C18', 'graph structure conditions compared nodes by identity'),
    ('b62382b', 'C08 C07', 'new owner of a composite condition not passed on to its components'),
    ('b98c797', 'C15 C14', 'Not and NWhen of absolute conditions were not treated as absolute'),
    ('5a8e69c', 'C10 C16', 'Time ignored its absolute time arguments'),
    ('3305d1e', 'C16', 'TimeInterval compared start and end as numbers or strings, not as times'),
    ('7fbadf9', 'C15', 'exact time grid missed the start of repeated intervals'),
    ('c0aa1f1', 'C14', 'absolute clock jumped to the end of an interval'),
    ('c387330', 'C03 C29', 'default conditions of an earlier run stayed in force after graph changes'),
    ('ab4b07d', 'C25', 'docstrings were not restored when an alias is removed'),
    ('0b0e1c0', 'C25', 'removing an alias removed conditions it had not added (AllHaveRun)'),
    ('2039709', 'C09', 'positional arguments a condition function accepts were dropped'),
    ('8588171', 'C12', 'graph structure conditions gave graphs that depended on the hash seed'),
    ('23ed88f', 'C08', 'All and Any did not accept components as keyword arguments'),
    ('ce320b1', 'C09', 'condition functions that are unhashable or not weakly referenceable could not be called'),
    ('211a38a', 'C27', 'executions of a set interrupted by an error were counted'),
    ('5dc50d5', 'C16', 'absolute times were represented in units that are not decimal (exactness lost)'),
    ('10b509d', 'C14 C16', 'absolute times in different units were compared inexactly'),
    ('31ca36f', 'C14', 'integer overflow in comparisons of absolute times'),
    ('7b0997f', 'C15', 'exact time did not advance if all specified times are 0'),
    ('efcff74', 'C14 C15', 'passes in absolute time did not start at multiples of their length'),
    ('f5ed6f9', 'C12 C11', 'schedulers yielded nodes of another scheduler with equal graph (cache)'),
    ('8056eba', 'C24', 'cached graph functions returned stale results for changed graphs with equal hash'),
    ('20c4a85', 'C24', 'changing a result of get_receivers and others changed later results'),
    ('9614200', 'C28 C17', 'dictionaries passed as subject operations were modified'),
    ('a7ec08d', 'C17 C19', 'subject operations missing in a dictionary gave a KeyError during application'),
    ('ee532b2', 'C22', 'IndexError when removing the only structural condition of an owner'),
    ('acf4f76', 'C25', 'alias names containing the name of another TimeScale broke the alias'),
    ('ea8dc80', 'C26', 'Threshold indices given as an iterator were used only once'),
    ('b61f9cb', 'C27', 'executions of a set interrupted by a BaseException were counted'),
    ('655041b', 'C30', 'custom graph structure functions without a signature could not be used'),
    ('a7c19ae', 'C01 C12', 'a node that is a bytes object and is a dependency of a condition made the scheduler unusable'),
    ('821a292', 'C14 C15', 'a repeated TimeInterval in a termination condition raised UnboundLocalError'),
    ('c47b370', 'C22', 'an assignment that was rejected removed the structure conditions of the node'),
    ('5bcd8d6', 'C31', 'JustRan evaluated without a scheduler gave an AttributeError, not a condition error'),
    ('1270cc5', 'C25', 'alias names with leading, trailing or repeated underscores raised IndexError and were half set'),
    ('622d98e', 'C25', 'rejected alias names of TimeScales stayed in the representation of times'),
    ('4b0a842', 'C14 C15 C16', 'times with many digits (69397.5 ns) were reduced to a wrong integer of a tiny unit; time stood still'),
]

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')
    with open(out, 'w') as f:
        f.write('# Genuine defects. "finding:" lines are suppressed by the checks (none at present); "fixed:" lines suppress nothing.\n')
        for commit, props, text in FIXES:
            for p in props.split():
                f.write(f'fixed: property={p} {commit} {text}\n')
