import importlib
WHERE = dict(C01="files", C02="files", C03="files", C04="files", C05="files", C14="files", C16="files", C06="lib", C07="lib", C08="lib", C09="thr",
             C10="mc", C11="mc", C12="mc", C13="mc", C15="py", C21="state", C22="world", C23="quota", C24="calls", C25="reading", C26="mc", C27="pick", C28="objs")


def get(pid):
    return getattr(importlib.import_module("dst.props." + WHERE[pid]), pid)()
