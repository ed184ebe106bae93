CONSTANT SelfErr <- RSelfErr
SPECIFICATION Spec
