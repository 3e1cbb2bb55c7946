class Report:
    """what a rule analysed and found"""

    def __init__(self, pid):
        self.pid = pid
        self.viol = {}          # key -> (where, message)
        self.counts = {}
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.notes = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, what=None):
        self.obligations += 1
        self.discharged += 1
        if what and len(self.samples) < 12:
            self.samples.append(what)

    def bad(self, key, where, msg):
        """key names the construct, never a line number"""
        if key not in self.viol:
            self.obligations += 1
            self.viol[key] = (where, msg)
