SPECIFICATION Spec
INVARIANT InRange
INVARIANT Once
INVARIANT Sign
INVARIANT Codec
INVARIANT Order
