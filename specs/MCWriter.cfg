SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Derived NeverWithoutField
PROPERTY Monotone
