SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS Derived NeverWithoutField
PROPERTY Monotone
