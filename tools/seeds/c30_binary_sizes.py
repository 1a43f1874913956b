ID = "c30-binary-sizes"
PROPERTY = "C30"
EDITS = [("model/data_types.py", "        if isinstance(right, (SqlFixedBinaryType, SqlVariableBinaryType)):\n            return type(left)(storage=max_or_none(left.storage, right.storage))", "        if isinstance(right, SqlFixedBinaryType):\n            return left\n        elif isinstance(right, SqlVariableBinaryType):\n            return type(left)(storage=max_or_none(left.storage, right.storage))")]
NEEDS = "a variable-length binary type followed by a longer fixed-length binary type"
BREAKS = "The merged type has the size of the variable-length type, so values of the fixed-length type do not fit."
DEMO = '''
from pysqlsync.model.data_types import *
for types in ([SqlVariableBinaryType(4), SqlFixedBinaryType(16)], [SqlFixedBinaryType(16), SqlVariableBinaryType(4)], [SqlVariableBinaryType(4), SqlVariableBinaryType(16)]):
    t = compatible_type(types)
    print(types, t)
    assert isinstance(t, SqlVariableBinaryType) and t.storage == 16, t
'''
