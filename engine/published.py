"""Stands for the service the package's data files are published on."""
import os
import shutil


class Published:
    """pooch.create's answer: the files registered, once the registry was asked for."""

    def __init__(self):
        self.files, self.known, self.loads, self.fetched = {}, False, 0, []

    def load_registry_from_doi(self, *a, **k):
        self.known = True
        self.loads += 1

    @property
    def registry(self):
        return {n: "md5:0" for n in self.files} if self.known else {}

    @property
    def registry_files(self):
        return list(self.registry)

    def is_available(self, name, *a, **k):
        return name in self.registry

    def fetch(self, name, *a, **k):
        if name not in self.registry:
            raise ValueError(f"File '{name}' is not in the registry.")
        self.fetched.append(name)
        return str(self.files[name])

    def publish(self, file):
        """Move a file there."""
        cache = os.path.join(os.environ["XDG_CACHE_HOME"], "published")
        os.makedirs(cache, exist_ok=True)
        shutil.move(str(file), os.path.join(cache, os.path.basename(file)))
        self.files[os.path.basename(file)] = os.path.join(cache, os.path.basename(file))

    def clear(self):
        self.files, self.fetched = {}, []


SERVICE = Published()


def install():
    import pooch

    pooch.create = lambda *a, **k: SERVICE
    SERVICE.clear()
