"""no simulation facilities in the stand-in"""
