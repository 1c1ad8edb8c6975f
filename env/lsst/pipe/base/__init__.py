import logging


class TaskError(Exception):
    pass


class Struct(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def getDict(self):
        return dict(self.__dict__)


class Task(object):
    ConfigClass = None
    _DefaultName = "task"

    def __init__(self, config=None, name=None, parentTask=None, log=None):
        self.config = config if config is not None else self.ConfigClass()
        self._name = name or self._DefaultName
        self._parentTask = parentTask
        self.log = log or logging.getLogger("lsst." + self._name)
        self.metadata = {}

    def makeSubtask(self, name, **kw):
        field = getattr(self.config, name, None)
        if field is None:
            raise KeyError("%s's config does not have field %r" % (self._name, name))
        setattr(self, name, field.apply(name=name, parentTask=self, **kw))

    def getName(self):
        return self._name


class PipelineTask(Task):
    pass
