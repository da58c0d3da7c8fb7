"""Stand-in for optparse, for the abstract interpreter: it records the options that are declared.  (Never imported.)"""


class OptionGroup:
    def __init__(self, parser, *args, **kwargs):
        self.verif_options = []
        parser.verif_groups.append(self)

    def add_option(self, *args, **kwargs):
        self.verif_options.append((args, kwargs))


class OptionParser:
    def __init__(self, *args, **kwargs):
        self.verif_options = []
        self.verif_groups = []
        self.verif_defaults = {}
        self.verif_mode = []

    def add_option(self, *args, **kwargs):
        self.verif_options.append((args, kwargs))

    def set_defaults(self, **kwargs):
        self.verif_defaults.update(kwargs)

    def disable_interspersed_args(self):
        self.verif_mode.append(False)

    def enable_interspersed_args(self):
        self.verif_mode.append(True)

    def set_usage(self, usage):
        pass

    def add_option_group(self, group):
        return group

    def parse_args(self, args=None, values=None):
        return verif_parse(self.verif_options, self.verif_defaults, self.verif_groups, self.verif_mode)
