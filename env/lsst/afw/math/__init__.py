class FixedKernel(object):
    def __init__(self, image):
        self.image = image
