"""Pictures of the Cairo backend."""


def picture(unit):
    """The exported page as a PIL image."""
    from PIL import Image

    path = unit.export(None, "png")
    with open(path, "rb") as f:
        im = Image.open(f)
        im.load()
    return im


def pixels(unit):
    im = picture(unit)
    return repr(im.size) + im.mode + im.tobytes().hex()
