def BuildMessageAndEnumDescriptors(file, module):
    pass


def BuildTopDescriptorsAndMessages(file, name, module):
    for full, cls in file.messages.items():
        cls.__module__ = name
        module[cls.__name__] = cls
