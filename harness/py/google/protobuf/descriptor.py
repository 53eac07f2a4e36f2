_USE_C_DESCRIPTORS = True
